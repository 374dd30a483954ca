// kind: classification of a text and the bracket table

pure digitByte(c byte) = '0' <= c && c <= '9'
pure sepByte(c byte) = c == ' ' || c == '[' || c == ']' || c == '(' || c == ')' || c == '{' || c == '}' || c == ',' || c == ':' || c == ';' || c == '\n' || c == '\t' || c == '\r'
pure symByte(c byte) = c == '+' || c == '&' || c == '=' || c == '!' || c == '(' || c == ')' || c == '-' || c == '|' || c == '<' || c == '[' || c == ']' || c == '*' || c == '^' || c == '>' || c == '{' || c == '}' || c == '/' || c == ':' || c == ',' || c == ';' || c == '%' || c == '.' || c == '~' || c == '_'
pure allDigits(s string) = forall i int :: {s[i]} 0 <= i && i < len(s) ==> digitByte(s[i])
pure allSymbols(s string) = forall i int :: {s[i]} 0 <= i && i < len(s) ==> symByte(s[i])

pure otherKeyword(s string) = s == "break" || s == "default" || s == "select" || s == "case" || s == "defer" || s == "go" || s == "else" || s == "goto" || s == "switch" || s == "fallthrough" || s == "if" || s == "range" || s == "continue" || s == "for" || s == "return"
pure basicType(s string) = s == "bool" || s == "string" || s == "byte" || s == "rune" || s == "int" || s == "uint" || s == "int8" || s == "uint8" || s == "int16" || s == "uint16" || s == "int32" || s == "uint32" || s == "int64" || s == "uint64" || s == "uintptr" || s == "float32" || s == "float64" || s == "complex64" || s == "complex128"
pure tableText(s string) = s == "\t" || s == " " || s == "," || s == ":" || s == "\n" || s == ";" || s == "(" || s == ")" || s == "{" || s == "}" || s == "[" || s == "]" || s == "import" || s == "var" || s == "const" || s == "map" || s == "chan" || s == "func" || s == "type" || s == "struct" || s == "interface" || s == "package"
pure plain(s string) = len(s) != 0 && !tableText(s)
pure litStart(s string) = s[0] == '"' || s[0] == '`'

group kinds
// the classification as one function of the text
axiom kindOf: forall s string :: {kindOf(s)} kindOf(s) == (
    len(s) == 0 ? kind("", "") : s == "\t" ? kind("\t", "Tab") : s == " " ? kind(" ", "Space") : s == "," ? kind(",", "Comma")
  : s == ":" ? kind(":", "Colon") : s == "\n" ? kind("\n", "NewLine") : s == ";" ? kind(";", "Semicolon")
  : s == "(" ? kind("(", "ParenthesisLeft") : s == ")" ? kind(")", "ParenthesisRight") : s == "{" ? kind("{", "CurlyBracketLeft") : s == "}" ? kind("}", "CurlyBracketRight")
  : s == "[" ? kind("[", "SquareBracketLeft") : s == "]" ? kind("]", "SquareBracketRight")
  : s == "import" ? kind("import", "Import") : s == "var" ? kind("var", "Var") : s == "const" ? kind("const", "Const") : s == "map" ? kind("map", "Map")
  : s == "chan" ? kind("chan", "Channel") : s == "func" ? kind("func", "Func") : s == "type" ? kind("type", "Type") : s == "struct" ? kind("struct", "Struct")
  : s == "interface" ? kind("interface", "Interface") : s == "package" ? kind("package", "Package")
  : allDigits(s) ? kind("", "Number") : len(s) == 1 && s[0] == '\r' ? kind("", "Separator") : litStart(s) ? kind("", "String")
  : otherKeyword(s) ? kind("", "Keyword") : basicType(s) ? kind("", "BasicType") : allSymbols(s) ? kind("", "Symbol") : kind("", "Raw"))

group

func kind.New(s) (r)
  uses [C02,C13] kinds
  ensures [C02,C13] kindOf: r == kindOf(s)
  ensures [C14] empty: len(s) == 0 ==> r == kind("", "")
  ensures [C14] tab: s == "\t" ==> r == kind("\t", "Tab")
  ensures [C14] space: s == " " ==> r == kind(" ", "Space")
  ensures [C14] comma: s == "," ==> r == kind(",", "Comma")
  ensures [C14] colon: s == ":" ==> r == kind(":", "Colon")
  ensures [C14] newline: s == "\n" ==> r == kind("\n", "NewLine")
  ensures [C14] semicolon: s == ";" ==> r == kind(";", "Semicolon")
  ensures [C14] parenthesis: (s == "(" ==> r == kind("(", "ParenthesisLeft")) && (s == ")" ==> r == kind(")", "ParenthesisRight"))
  ensures [C14] curly: (s == "{" ==> r == kind("{", "CurlyBracketLeft")) && (s == "}" ==> r == kind("}", "CurlyBracketRight"))
  ensures [C14] square: (s == "[" ==> r == kind("[", "SquareBracketLeft")) && (s == "]" ==> r == kind("]", "SquareBracketRight"))
  ensures [C14] import: s == "import" ==> r == kind("import", "Import")
  ensures [C14] var: s == "var" ==> r == kind("var", "Var")
  ensures [C14] const: s == "const" ==> r == kind("const", "Const")
  ensures [C14] map: s == "map" ==> r == kind("map", "Map")
  ensures [C14] chan: s == "chan" ==> r == kind("chan", "Channel")
  ensures [C14] func: s == "func" ==> r == kind("func", "Func")
  ensures [C14] type: s == "type" ==> r == kind("type", "Type")
  ensures [C14] struct: s == "struct" ==> r == kind("struct", "Struct")
  ensures [C14] interface: s == "interface" ==> r == kind("interface", "Interface")
  ensures [C14] package: s == "package" ==> r == kind("package", "Package")
  ensures [C14] number: plain(s) && allDigits(s) ==> r == kind("", "Number")
  ensures [C14] carriage-return: s == "\r" ==> r == kind("", "Separator")
  ensures [C14] string: plain(s) && litStart(s) ==> r == kind("", "String")
  ensures [C14] keyword: otherKeyword(s) ==> r == kind("", "Keyword")
  ensures [C14] basic: basicType(s) ==> r == kind("", "BasicType")
  ensures [C14] symbol: plain(s) && allSymbols(s) ==> r == kind("", "Symbol")
  ensures [C14] raw: plain(s) && !allDigits(s) && !(s == "\r") && !litStart(s) && !otherKeyword(s) && !basicType(s) && !allSymbols(s) ==> r == kind("", "Raw")
  safety [C14,C26]
  inv for $p int :: 0 <= $p && $p <= len(s) && (forall j int :: {s[j]} 0 <= j && j < $p ==> digitByte(s[j]))
  inv for $p int :: 0 <= $p && $p <= len(s) && (forall j int :: {s[j]} 0 <= j && j < $p ==> symByte(s[j]))
  inv for $b bool :: $b

func (kind.Kind).GetClose(k) (c, ok)
  ensures [C15] round: k == kind("(", "ParenthesisLeft") ==> ok && c == kind(")", "ParenthesisRight")
  ensures [C15] round-back: k == kind(")", "ParenthesisRight") ==> ok && c == kind("(", "ParenthesisLeft")
  ensures [C15] curly: k == kind("{", "CurlyBracketLeft") ==> ok && c == kind("}", "CurlyBracketRight")
  ensures [C15] curly-back: k == kind("}", "CurlyBracketRight") ==> ok && c == kind("{", "CurlyBracketLeft")
  ensures [C15] square: k == kind("[", "SquareBracketLeft") ==> ok && c == kind("]", "SquareBracketRight")
  ensures [C15] square-back: k == kind("]", "SquareBracketRight") ==> ok && c == kind("[", "SquareBracketLeft")
  ensures [C15] other: !(k == kind("(", "ParenthesisLeft") || k == kind(")", "ParenthesisRight") || k == kind("{", "CurlyBracketLeft") || k == kind("}", "CurlyBracketRight") || k == kind("[", "SquareBracketLeft") || k == kind("]", "SquareBracketRight")) ==> !ok && c == kind("", "")
  safety [C15,C26]

func (kind.Kind).String(k) (r)
  ensures [C15] name: r == k.k1
  safety [C15,C26]

func (scope.Kind).String(k) (r)
  ensures [C15] unknown: k == "" ==> r == "Unknown"
  ensures [C15] package: k == "package" ==> r == "Package"
  ensures [C15] comment: k == "//" ==> r == "Comment"
  ensures [C15] inner-comment: k == "/*" ==> r == "InnerComment"
  ensures [C15] import: k == "import" ==> r == "Import"
  ensures [C15] var: k == "var" ==> r == "Variable"
  ensures [C15] const: k == "const" ==> r == "Const"
  ensures [C15] type: k == "type" ==> r == "Type"
  ensures [C15] func: k == "func" ==> r == "Func"
  ensures [C15] other: !(k == "" || k == "package" || k == "//" || k == "/*" || k == "import" || k == "var" || k == "const" || k == "type" || k == "func") ==> r == ""
  safety [C15,C26]

func (scope.Kind).ToKind(k) (r)
  ensures [C15] unknown: k == "" ==> r == kind("", "Raw")
  ensures [C15] package: k == "package" ==> r == kind("package", "Package")
  ensures [C15] comment: k == "//" || k == "/*" ==> r == kind("", "Comment")
  ensures [C15] import: k == "import" ==> r == kind("import", "Import")
  ensures [C15] var: k == "var" ==> r == kind("var", "Var")
  ensures [C15] const: k == "const" ==> r == kind("const", "Const")
  ensures [C15] type: k == "type" ==> r == kind("type", "Type")
  ensures [C15] func: k == "func" ==> r == kind("func", "Func")
  ensures [C15] other: !(k == "" || k == "package" || k == "//" || k == "/*" || k == "import" || k == "var" || k == "const" || k == "type" || k == "func") ==> r == kind("", "")
  safety [C15,C26]
