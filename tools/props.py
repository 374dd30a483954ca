#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}})


p("C01", "Parsing keeps every byte of the source, in order",
  "For every byte text, putting together the texts of all nodes of all scopes that parsing returns, in order, gives back exactly the text from the line of the first top-level declaration or comment on. No byte is lost, repeated, changed or moved; if no line begins a declaration or comment, no scope is returned.",
  ["inputs"], "every byte string as source text, every start line; valid Go or not",
  "The tests parse a handful of short, well-formed texts; a byte can be lost at any combination of delimiters, escapes, end of text inside a literal, or node merging.",
  ["extractor.go", "scope.go", "kind_resetter_all.go", "node.go"],
  [("recursive extractor that flushes its buffer at delimiters", "extractor.go: (*extractor).Run"), ("splitting into scopes", "scope.go: ParseScope"), ("merging of type nodes", "kind_resetter_all.go: combineAdjacent")],
  ["ParseScope", "ParseAst", "Ast.Save"])
p("C02", "Comments, literals and separators are cut exactly where they begin and end",
  "For every byte text, before nodes of one type expression are merged, the nodes are exactly the lexical pieces of the text: a line comment without its newline, a block comment, an interpreted or raw string and a rune literal are each one node from opener to closer (escapes honoured, no opener, bracket or separator inside them taken as code), each separator byte of the language (blank, newline, tab, carriage return, brackets, comma, colon, semicolon) outside them is a node of its own, and what stands between is one node. Comments carry the comment kind, string literals the string kind, and every other piece the kind that its text alone determines.",
  ["inputs"], "every byte string as source text",
  "Tests look at a few literals; whether a backslash, quote, `*/` or bracket is code or content depends on everything before it in the text.",
  ["extractor.go", "charset/charset.go", "helper/helper.go", "kind/kind.go"],
  [("opener table and per-literal extractors", "extractor.go: _commonDeeperExtract, (*extractor).Run"), ("separator set", "charset: SeparatorCharset"), ("prefix and suffix tests", "helper: HasPrefix, HasSuffix")],
  ["ParseScope node texts and kinds"])
p("C03", "Every node carries the line its text begins on",
  "For every byte text and start line, each node that parsing produces reports as its line the start line plus the number of newlines in the text before the node's first byte, also after multi-line comments, raw strings and nested brackets. A scope reports the line, counted from one, of the node it begins with.",
  ["inputs"], "every byte string, every start line",
  "The line of a node depends on all text before it; tests check few nodes and no multi-line literals or nesting combinations.",
  ["extractor.go", "scope.go", "node.go"],
  [("line counter and start-of-buffer line", "extractor.go: (*extractor).Run"), ("scope line", "scope.go: NewScope, Line")],
  ["Node.Line", "Scope.Line"])
p("C05", "The text is split into scopes exactly at top-level declarations",
  "For every byte text, a new scope begins exactly at each line whose first piece is one of the keywords package, import, var, const, type, func or a comment, has the kind of that keyword, starts with that piece, and reaches up to the next such line or the end. Scopes share no node, each begins a chain of its own with nothing before it, and every piece after the first beginning belongs to exactly one scope, in order.",
  ["inputs"], "every byte string, every start line",
  "Tests split three fixed files; a keyword that is only a prefix of a word, a comment kind, a bracketed block or the end of text decide the split.",
  ["scope.go", "extractor.go", "node.go"],
  [("scan over the first node of each line", "scope.go: ParseScope"), ("keyword table", "scope.go: newScopeKind"), ("cutting the chain", "node.go: RemovePrev")],
  ["ParseScope"])
p("C06", "Links between nodes stay mutual and acyclic under every edit",
  "If before an editing call every next link is answered by the prev link of its target and no chain runs into itself, then the same holds after the call, whatever nodes it is called with: nil nodes, the same node, neighbours, nodes of one chain or of two. (A replace that would close a chain by attaching a node to one that already leads to it is outside.)",
  ["inputs", "histories"], "every set of chains, every choice of nodes, every sequence of editing calls",
  "Tests edit one short chain each way; which links an edit must repair depends on where both nodes stand.",
  ["node.go"], [("link surgery", "node.go: InsertNext, InsertPrev, ReplaceNext, ReplacePrev, TakeNext, TakePrev, RemoveNext, RemovePrev, Isolate")],
  ["Node.Next", "Node.Prev"])
p("C07", "Insert and replace change exactly the links they should and return what they cut",
  "Inserting a node next to another puts it directly there and keeps the old neighbour behind it; replacing puts it there with its own remainder and cuts the old neighbour off; inserting or replacing with the neighbour that already stands there, or the node itself, changes nothing and returns two nils. The call returns the nodes it detached, in order: the former neighbour of the inserted node, then the cut-off remainder; no link of any other node changes.",
  ["inputs"], "every shape of chains around both nodes, nil included",
  "Tests sample a few positions; a lost or extra link shows only for particular neighbourhoods.",
  ["node.go"], [("link surgery", "node.go: InsertNext, InsertPrev, ReplaceNext, ReplacePrev")], ["Node.Next", "Node.Prev", "return values"])
p("C08", "Take, remove and isolate detach exactly what they say",
  "Taking the next or previous node unlinks that one node and joins the gap; removing cuts the chain at that side and returns the detached part; isolating cuts the node from both sides. Every other link stays as it was, and the detached node or part is returned (nil when there is none).",
  ["inputs"], "every shape of chains around the node, nil included",
  "Tests sample a few positions of one chain.",
  ["node.go"], [("link surgery", "node.go: TakeNext, TakePrev, RemoveNext, RemovePrev, Isolate")], ["Node.Next", "Node.Prev", "return values"])
p("C09", "Every node operation is safe on nil nodes",
  "No operation of a node panics, whether the node it is called on or any node given to it is nil (a nil callback aside), and reading a nil node gives the documented empty answers: no neighbours, empty text, line -2, the empty kind. Setting text or kind changes that one node only, and nothing when it is nil.",
  ["inputs"], "every method, every combination of nil and non-nil receivers and arguments, every chain",
  "Tests try few nil combinations; nil dereferences hide behind particular combinations.",
  ["node.go"], [("nil checks", "node.go: all methods of Node")], ["absence of panics", "Node.Line", "Node.Kind", "Node.Text"])
p("C10", "A copy of a node or chain is exact and shares nothing with the original",
  "Copying a node gives a new node with the same text, kind and line and no neighbours; copying deeply gives new nodes for the whole chain on both sides, linked as the original is, with equal text, kind and line at each position. The original is not changed, and no node of the copy is a node of the original.",
  ["inputs"], "every chain of any length, every position in it",
  "Tests copy one chain; sharing or a wrong link may sit at any depth on either side.",
  ["node.go"], [("recursive copy in both directions", "node.go: Copy, deepCopy")], ["Node.Copy", "Scope.Copy", "Ast.Copy"])
p("C11", "Combining nodes joins their texts in order and isolates the combined ones",
  "Combining a list of nodes into a node gives it the given kind and the text made of its own and the listed nodes' texts, in list order after it (next) or before it, the last nearest (prev), skipping nil nodes; with a nil receiver the first node of the list that is not nil takes its place. Each combined node other than the receiver ends up without neighbours, and no other text or kind changes.",
  ["inputs"], "every list of nodes of any length, nils and repetitions included, every chain they stand in",
  "Tests combine two or three nodes; order and nil handling depend on list length and position.",
  ["node.go"], [("text joining and isolation", "node.go: CombineNext, CombinePrev, Isolate")], ["Node.Text", "Node.Kind", "return value"])
p("C12", "Iteration visits each following node once, in order, until told to stop",
  "Iterating forwards or backwards calls the callback on the node itself and then on each node along the links, once each, in order, and stops at the end (returning nil) or right after the callback first answers false (returning that node). The first and last node of a chain are those with no neighbour on that side, reached along the links.",
  ["inputs"], "every chain of any length, every callback behaviour",
  "Tests iterate short chains with callbacks that stop at one place.",
  ["node.go"], [("loops over links", "node.go: IterNext, IterPrev, First, Last")], ["callback calls", "return values"])
p("C13", "Nodes built from texts form one chain with correct lines and kinds",
  "Building nodes from a list of texts gives one chain with a node per text in order, linked both ways, and nil for no texts. The first node has the start line, every other the line of its predecessor plus the newlines in the predecessor's text, and each has the kind its text determines; a single new node has exactly the given line, text and kind and no neighbours.",
  ["inputs"], "every list of texts of any length, every start line",
  "Tests build short lists, mostly of single-line texts.",
  ["node.go", "kind/kind.go"], [("chain construction", "node.go: NewNode, NewNodes")], ["NewNode", "NewNodes"])
p("C14", "A text is classified by exactly one, documented kind",
  "For every text, classification gives the kind of exactly that keyword, separator, bracket or basic type when the text is one; otherwise the number kind when it consists of digits, the string kind when it begins with a quote or backquote, the symbol kind when all its bytes are operator or punctuation characters, and else the raw kind. The empty text has the empty kind, and the answer depends on the text alone.",
  ["inputs"], "every string",
  "The classifier is tested on some of its own table entries; the tables overlap with prefixes and character sets, so any other text may fall into the wrong class.",
  ["kind/kind.go", "charset/charset.go"], [("lookup tables and prefix tests", "kind/kind.go: New")], ["kind.New", "Node.Kind"])
p("C15", "Bracket pairs and the names of kinds are consistent",
  "The counterpart of each bracket kind (round, curly, square; opening or closing) is exactly the other bracket of its pair, and no other kind has one. The names of kinds and scope kinds and the conversion of scope kinds to node kinds follow one fixed table, unknown values included.",
  ["inputs"], "every kind and every scope kind value",
  "Tests check some entries only.",
  ["kind/kind.go", "scope/scope_kind.go"], [("switch tables", "kind/kind.go, scope/scope_kind.go")], ["Kind.GetClose", "Kind.String", "scope.Kind.String", "scope.Kind.ToKind"])
p("C16", "Prefix, suffix and append-without-repeat helpers are exact",
  "The prefix test holds exactly if the text is at least as long as the prefix and agrees with it on every byte of it, and the suffix test likewise at the end. Appending without repetition gives the old elements followed by all given ones, in order, leaving out only the first given one when it equals the last old one, and leaves the old elements as they were.",
  ["inputs"], "every byte string and prefix or suffix, every slice of comparable values",
  "Tests use a few strings; a comparison that skips a byte passes them.",
  ["helper/helper.go"], [("byte comparison loops", "helper/helper.go: HasPrefix, HasSuffix, AppendUnrepeatable")], ["helper.HasPrefix", "helper.HasSuffix", "helper.AppendUnrepeatable"])
p("C17", "The trie behaves as a dictionary from byte strings to values",
  "After any sequence of additions, looking up a text gives the value last stored under exactly that text (the zero value when none was), and reports success exactly if the text is the beginning of some added key or empty; keys that begin other keys, empty keys and bytes outside ASCII included. Looking up bytes equals looking up the text of the same bytes, and reverse lookup equals lookup of the reversed text.",
  ["inputs", "histories"], "every sequence of additions on every set of byte strings, every lookup",
  "Tests store a few words; what an addition must keep depends on all keys sharing a prefix.",
  ["trie.go"], [("node-per-byte tree", "trie.go: newTrie, AddText, Insert, Next, FindText, FindByte and the reverse forms")], ["trie operations (package-internal)"])
p("C18", "Character sets contain exactly the elements they were built from",
  "A set built from elements or from lists of elements contains exactly those, for every element type, and a nil set contains nothing. The predefined sets hold exactly the separator bytes (blank, newline, tab, carriage return, brackets, comma, colon, semicolon), the ten digits, the bytes of Go's operators and punctuation, Go's 25 keywords, and its basic type names.",
  ["inputs"], "every list of elements and every probe",
  "Tests probe some members; an extra or missing member is only seen by probing it.",
  ["charset/charset.go"], [("map-backed set", "charset/charset.go: New, NewSlice, Contain")], ["charset.New", "charset.NewSlice", "Contain", "SeparatorCharset"])
p("C19", "The package name is the one in the package clause, or the documented error",
  "Asking a parsed or assembled source for its package name gives the text of the first node of the raw or basic-type kind after the package keyword in its first package clause (so blanks and comments are skipped); without a package clause, or without a name in it, it gives the no-package error, and building or parsing such a source fails with it.",
  ["inputs"], "every list of scopes, every source text",
  "Tests use one package clause shape.",
  ["ast.go", "scope.go"], [("search for the package scope and its name", "ast.go: findPackageName, NewAst, Package, ParseAst")], ["Ast.Package", "NewAst", "ParseAst"])
p("C20", "Scope list operations and metadata of a source are exact",
  "The scopes of a source are exactly those it was given, in order: appending adds the new ones at the end, setting gives a new source with the same file data and the given scopes and leaves the old one alone, iterating calls the callback on each scope in order until it answers false, and copying gives a new source with the same file data and a copy of each scope. File, directory, name and extension are those of the parsed path, and a nil source answers with empty values.",
  ["inputs", "histories"], "every list of scopes and every sequence of these calls",
  "Tests exercise one short list.",
  ["ast.go", "scope.go"], [("slice-backed scope list", "ast.go: SetScope, AppendScope, IterScope, Copy, accessors")], ["Ast methods"])
p("C21", "Saving writes exactly the scopes' text, and file failures are reported",
  "Saving hands the texts of all nodes of all scopes, in order, to the formatter and writes the formatted result (the plain text when formatting fails) to the given path, with .go appended when missing, after creating its directory. An empty source is refused, and every failure to create the directory or the file, to write, or to read a file is returned as an error, a missing file on reading as the not-exist error.",
  ["inputs", "fault_sequences"], "every list of scopes, every path, every outcome of each file system call",
  "Tests save one file and see no failing call.",
  ["ast.go", "helper/helper.go"], [("concatenation and file output", "ast.go: Save, ParseAst; helper/helper.go: SaveFile, ReadFile")], ["Ast.Save", "ParseAst", "helper.SaveFile", "helper.ReadFile"])
p("C22", "Refining the kinds of a scope never changes its text, order or lines",
  "Whatever chain of nodes kind refinement is given, the text of the chain from its head to its end is the same before and after, its head stays its head, nodes keep their order, and no node's line changes: refinement changes kinds and merges neighbouring nodes, and does nothing else.",
  ["inputs"], "every chain of nodes of any kinds and texts",
  "Tests refine a few declarations; a node dropped or moved while merging types appears only for particular nestings.",
  ["kind_resetter_all.go", "kind_resetter_func.go", "kind_resetter_parenthesis.go", "kind_resetter_type.go"],
  [("recursive descent over brackets, types and functions", "kind_resetter_*.go"), ("merging", "kind_resetter_all.go: combineAdjacent")], ["ParseScope node texts", "Ast.Save"])
p("C23", "Name queries of a scope answer only for the right sort of declaration",
  "Asking a scope for its function, method, receiver, type, struct or interface name succeeds only if the scope holds a declaration of that sort, and then gives the text of the first node in it that carries the corresponding kind; a struct or interface name is given only for what the type declaration itself names. The scope is not changed by asking.",
  ["inputs"], "every scope kind and every chain of nodes of any kinds",
  "Tests ask a few well-formed declarations.",
  ["scope.go"], [("search over the scope's nodes", "scope.go: GetFuncName, GetMethodName, GetMethodReceiver, GetTypeName, GetStructName, GetInterfaceName")], ["Scope methods"])
p("C24", "Parsing and classification leave the package's shared tables as they are",
  "No operation of the library changes the package-level tables that parsing and classification depend on, so the same text gives the same result on every call, in any order of calls.",
  ["inputs", "histories"], "every operation, every sequence of calls",
  "Tests run each operation once or twice in one fixed order.",
  ["extractor.go", "kind_resetter_all.go", "kind/kind.go", "charset/charset.go", "helper/helper.go"],
  [("package-level variables written only at initialisation", "all packages")], ["repeated calls of any operation"])
p("C26", "Parsing never panics, whatever the text",
  "Splitting any byte text into nodes and scopes never panics: not on unbalanced brackets, unterminated literals, bytes that are not UTF-8, the empty text, or text that is no Go at all.",
  ["inputs"], "every byte string",
  "Tests parse well-formed Go.",
  ["extractor.go", "scope.go", "node.go", "kind_resetter_all.go", "kind_resetter_func.go", "kind_resetter_parenthesis.go", "kind_resetter_type.go"],
  [("index and nil discipline", "extractor.go: (*extractor).Run, kind_resetter_*.go")], ["ParseScope", "NewAst"])
with open(HERE + "/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
