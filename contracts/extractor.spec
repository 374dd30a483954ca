// extractor: the cutting of a text into lexical pieces
ghostvar cut seq[int]
ghostfield Node.num int

group marks
logic mkn(*Node) bool
axiom mkn: forall x *Node :: {mkn(x)} mkn(x)
logic succ(int) int
axiom succ: forall x int :: {succ(x)} succ(x) == x + 1
axiom mkl: forall x int :: {mki(x)} mki(x)
// newlines in the first k bytes
logic nl(string, int) int
axiom nl0: forall T string, k int :: {nl(T, k)} k <= 0 ==> nl(T, k) == 0
group lex
// the lexical state before byte k of a text: 0 code; 1, 2 at the second byte of an opener of a line, block comment;
// 3 line comment; 4 block comment; 5 block comment behind a star; 6 string; 7 string behind a backslash; 8 raw string;
// 9 rune literal; 10 rune literal behind a backslash
pure step(s int, b int, n int) = s == 0 ? (b == '/' && n == '/' ? 1 : b == '/' && n == '*' ? 2 : b == '"' ? 6 : b == '`' ? 8 : b == 39 ? 9 : 0)
  : s == 1 ? 3 : s == 2 ? 4 : s == 3 ? (b == 10 ? 0 : 3) : s == 4 ? (b == '*' ? 5 : 4) : s == 5 ? (b == '/' ? 0 : b == '*' ? 5 : 4)
  : s == 6 ? (b == 92 ? 7 : b == '"' ? 0 : 6) : s == 7 ? 6 : s == 8 ? (b == '`' ? 0 : 8) : s == 9 ? (b == 92 ? 10 : b == 39 ? 0 : 9) : 9
logic st(string, int) int
axiom st0: forall T string, k int :: {st(T, k)} k <= 0 ==> st(T, k) == 0
axiom st1: forall T string, p int, q int :: {st(T, q), mki(p)} p < q && q <= p + 1 && 0 <= p && p < len(T) ==> st(T, q) == step(st(T, p), T[p], q < len(T) ? T[q] : 0 - 1)
axiom nl1: forall T string, p int, q int :: {nl(T, q), mki(p)} p < q && q <= p + 1 && 0 <= p && p < len(T) ==> nl(T, q) == nl(T, p) + (T[p] == 10 ? 1 : 0)
// a piece begins at byte k
pure edge(T string, k int) = k <= 0 || k >= len(T) || (st(T, k) == 0 && (st(T, k + 1) != 0 || sepByte(T[k]) || st(T, k - 1) != 0 || sepByte(T[k-1]))) || (st(T, k) == 3 && T[k] == 10)
logic bnd(string, int) bool
axiom bnd: forall T string, k int :: {bnd(T, k)} mki(k) && mki(k - 1) && (bnd(T, k) <==> edge(T, k))
group

pure inner(k string) = k == "\n" ? 3 : k == "*/" ? 4 : k == "\"" ? 6 : k == "`" ? 8 : k == "'" ? 9 : 0
pure least(a int, b int) = a < b ? a : b
pure pieceKind(T string, a int, s string) = st(T, a + 1) == 1 || st(T, a + 1) == 2 ? kind.Comment : st(T, a + 1) == 6 || st(T, a + 1) == 8 ? kind.String : kindOf(s)
pure lexed(s int) = 1 <= s && s <= 10
// the pieces c..n-1 of T and the chain their nodes make
pure chained(c int, n int) = (forall j int :: {made[j]} c <= j && j < n ==> made[j] != nil && isnew(made[j]) && made[j].num == j
     && (j == n - 1 ==> made[j].next == nil) && (j == c ==> made[j].prev == nil))
     && (forall j int, k int :: {made[j], made[k]} c <= j && k < n && j < k && k <= j + 1 ==> made[j].next == made[k] && made[k].prev == made[j])
// only nodes of the chain have links
pure owned(c int, n int) = (forall x *Node :: {x.next} x != nil && isnew(x) && x.next != nil ==> c <= x.num && x.num < n && x == made[x.num] && mkn(made[x.num+1]))
     && (forall x *Node :: {x.prev} x != nil && isnew(x) && x.prev != nil ==> c <= x.num && x.num < n && x == made[x.num] && mkn(made[x.num-1]))
pure pieces(c int, n int) = forall j int :: {made[j]} c <= j && j < n ==> made[j] != nil && isnew(made[j]) && made[j].num == j
pure linkedUp(c int, n int) = (forall x *Node :: {x.next} x != nil && !isold(x) && x.next != nil ==> x.next.prev == x && x.next.num == x.num + 1 && c <= x.num && x.num + 1 < n && x == made[x.num] && x.next == made[x.num+1])
     && (forall x *Node :: {x.prev} x != nil && !isold(x) && x.prev != nil ==> x.prev.next == x && c < x.num && x.num < n && x == made[x.num])
     && (forall j int, k int :: {made[j], made[k]} c <= j && k < n && j < k && k <= j + 1 ==> made[j].next == made[k] && made[k].prev == made[j])
pure texts(T string, c int, n int) = forall j int :: {made[j]} c <= j && j < n ==> cut[j] < cut[j+1] && cut[j+1] <= len(T) && made[j].text == sub(T, cut[j], cut[j+1])
pure bounds(T string, c int, n int) = (forall j int :: {made[j]} c <= j && j < n ==> bnd(T, cut[j]) && bnd(T, cut[j+1]))
     && (forall j int, k int :: {made[j], bnd(T, k)} c <= j && j < n && cut[j] < k && k < cut[j+1] ==> !bnd(T, k))
pure kinds(T string, c int, n int) = forall j int :: {made[j]} c <= j && j < n ==> made[j].kind == pieceKind(T, cut[j], made[j].text)
pure lines(T string, b int, c int, n int) = forall j int :: {made[j]} c <= j && j < n ==> made[j].line == b + nl(T, cut[j])

// the state at the second byte of what a literal's closing keyword closes
pure opened(k string) = k == "\n" ? 1 : k == "*/" ? 2 : inner(k)

func (*goast.extractor).Run(e, text, buf, i, line) (r, err)
  uses lex, marks
  cells buf, i, line
  cases e in objects extractor
  modifies made, nmade, cut, *buf, *i, *line, new Node.num
  modifies [C02,C03] Node.next, Node.prev
  modifies [C26] E<byte>, Node.kind, Node.line, Node.next, Node.prev, Node.text
  let T = str(text)
  let c = nmade
  let s0 = cut[nmade]
  let i0 = *i
  let base = *line - nl(T, *i)
  let lit = inner(e.ReturnKeyword) != 0
  requires [C01,C02,C03,C05,C26] position: 0 <= *i && *i <= len(text)
  requires [C01,C02,C03,C05] cut: 0 <= s0
  requires [C01,C02,C03,C05] code: !lit ==> *buf == "" && s0 == *i
  requires [C02] code-state: !lit ==> st(T, *i) == 0
  requires [C01,C02,C03,C05] literal: lit ==> s0 < *i && *buf == sub(T, s0, *i)
  requires [C02] literal-state: lit ==> st(T, *i) == inner(e.ReturnKeyword) && st(T, s0) == 0 && st(T, s0 + 1) == opened(e.ReturnKeyword) && *i == s0 + (opened(e.ReturnKeyword) <= 2 ? 2 : 1)
  requires [C02] edge: bnd(T, s0)
  requires [C01,C03,C05] newlines: nl(T, s0) == nl(T, *i)
  ensures [C01,C02,C03,C05,C26] position: i0 <= *i && err == nil
  ensures [C01,C02,C03,C05] end: *buf == "" && cut[nmade] == (*i < len(T) ? *i + 1 : len(T)) && nmade >= c
  ensures [C01,C02,C03,C05] whole: e.ReturnKeyword == "" ==> *i >= len(T)
  ensures [C02] state: *i < len(T) ==> st(T, *i + 1) == 0
  ensures [C01,C03,C05] line: *line == base + nl(T, cut[nmade])
  ensures [C01,C02,C03,C05] kept: (forall j int :: {made[j]} j < c ==> made[j] == old(made[j])) && (forall j int :: {cut[j]} j <= c ==> cut[j] == old(cut[j]))
  ensures [C01,C05] head: r == (nmade > c ? made[c] : nil) && mkn(made[c+1]) && tied(r)
  ensures [C01,C05] chain: chained(c, nmade)
  ensures [C01,C05] owned: owned(c, nmade)
  ensures [C01,C05] rising: rising(T, cut, c, nmade)
  ensures [C02,C03] made: forall j int :: {made[j]} c <= j && j < nmade ==> made[j] != nil && isnew(made[j])
  ensures [C01,C02,C03,C05] texts: texts(T, c, nmade)
  ensures [C02] bounds: bounds(T, c, nmade) && bnd(T, cut[nmade])
  ensures [C02] kinds: kinds(T, c, nmade)
  ensures [C01,C03,C05] lines: lines(T, base, c, nmade)
  safety [C26]
  // the loop over the bytes
  inv [C01,C02,C03,C05,C26] i0 <= *i
  inv [C01,C02,C03,C05] mki(*i) && mki(*i - 1) && mki(*i + 1)
  inv [C01,C02,C03,C05] nmade >= c && 0 <= cut[nmade] && cut[nmade] <= len(T)
  inv [C01,C02,C03,C05] cut[nmade] <= least(*i, len(T))
  inv [C01,C02,C03,C05] *buf == sub(T, cut[nmade], least(*i, len(T)))
  inv [C01,C02,C03,C05] (forall j int :: {made[j]} j < c ==> made[j] == old(made[j])) && (forall j int :: {cut[j]} j <= c ==> cut[j] == old(cut[j]))
  inv [C01,C02,C03,C05] lit ==> nmade == c && *i <= len(T)
  inv [C02] lit && *i < len(T) ==> st(T, *i) == (inner(e.ReturnKeyword) == 4 && *i > i0 && T[*i - 1] == '*' ? 5 : inner(e.ReturnKeyword))
  inv [C02] !lit && *i < len(T) ==> st(T, *i) == 0
  inv [C01,C05] chained(c, nmade)
  inv [C01,C05] owned(c, nmade)
  inv [C01,C05] rising(T, cut, c, nmade)
  inv [C02,C03] forall j int :: {made[j]} c <= j && j < nmade ==> made[j] != nil && isnew(made[j])
  inv [C01,C02,C03,C05] texts(T, c, nmade)
  inv [C02] bnd(T, cut[nmade])
  inv [C02] bounds(T, c, nmade)
  inv [C02] kinds(T, c, nmade)
  inv [C02] forall k int :: {bnd(T, k)} cut[nmade] < k && k < least(*i, len(T)) ==> !bnd(T, k)
  inv [C02] !lit && cut[nmade] < least(*i, len(T)) ==> st(T, least(*i, len(T)) - 1) == 0 && !sepByte(T[least(*i, len(T)) - 1]) && st(T, cut[nmade] + 1) == 0
  inv [C01,C03,C05] *line == base + nl(T, least(*i, len(T)))
  inv [C01,C03,C05] !lit || e.ReturnKeyword == "\n" ==> nl(T, least(*i, len(T))) == nl(T, cut[nmade])
  inv [C01,C03,C05] for $l int :: lit ==> $l == base + nl(T, s0)
  inv [C01,C03,C05] lines(T, base, c, nmade)
  inv [C01,C05] for $h *Node, $u *Node :: $h == (nmade > c ? made[c] : nil) && $u == (nmade > c ? made[nmade-1] : nil) && mkn(made[nmade-2]) && tied($u)
  // the search for an opener
  inv [C02] for $s set[string] :: *i < len(T) && ("(" in $s ==> T[*i] != '(') && ("{" in $s ==> T[*i] != '{') && ("\"" in $s ==> T[*i] != '"') && ("`" in $s ==> T[*i] != '`') && ("'" in $s ==> T[*i] != 39)
     && ("//" in $s ==> !(T[*i] == '/' && *i + 1 < len(T) && T[*i+1] == '/')) && ("/*" in $s ==> !(T[*i] == '/' && *i + 1 < len(T) && T[*i+1] == '*'))
  // the walk to the end of what was inserted
  inv [C01,C05] for $n *Node :: $n != nil && c <= $n.num && $n.num < nmade && $n == made[$n.num] && mkn(made[$n.num+1]) && mkn(made[$n.num-1]) && tied($n)

// the log of the pieces of a text begins at cut[nmade] = 0
func goast.extractFrom(line, text) (r, err)
  uses lex, marks
  uses [C01,C05] scopes, upTo
  modifies made, nmade, cut, new Node.num
  modifies [C02,C03] Node.next, Node.prev
  option [C19,C20,C21] havoc
  let T = str(text)
  let c = nmade
  requires [C01,C02,C03,C05] log: cut[nmade] == 0
  ensures [C01,C02,C03,C05,C26] no-error: err == nil
  ensures [C01,C02,C03,C05] all: nmade >= c && cut[c] == 0 && cut[nmade] == len(T)
  ensures [C01,C02,C03,C05] texts: texts(T, c, nmade)
  ensures [C01,C05] head: r == (nmade > c ? made[c] : nil)
  ensures [C01,C05] pieces: pieces(c, nmade)
  ensures [C01,C05] links: linkedUp(c, nmade)
  ensures [C01,C05] rising: rising(T, cut, c, nmade)
  ensures [C02,C03] made: forall j int :: {made[j]} c <= j && j < nmade ==> made[j] != nil && isnew(made[j])
  ensures [C02] bounds: bounds(T, c, nmade)
  ensures [C02] kinds: kinds(T, c, nmade)
  ensures [C01,C03,C05] lines: lines(T, line, c, nmade)
  // the ghost text from a piece to the end of the scope it will belong to
  modifies [C01,C05] Node.tail
  ghost [C01,C05] forall x *Node :: x.tail := c <= x.num && x.num < nmade && made[x.num] == x ? upTo(T, cut, c, x.num, nmade) : x.text
  ensures [C01,C05] tails: forall x *Node :: {x.text, x.tail} {x.tail, mkn(made[succ(x.num)]), mki(succ(x.num))} x != nil && !isold(x) ==> x.tail == (x.next == nil || beg(T, cut, c, x.next.num) ? x.text : cat(x.text, x.next.tail))
  ensures [C01,C05] scope-texts: forall j int :: {made[j].tail} c <= j && j < nmade ==> made[j].tail == sub(T, cut[j], cut[nb(T, cut, c, j, nmade)])
  safety [C26]

func goast.extract(text) (r, err)
  uses lex, marks
  modifies made, nmade, cut, new Node.num
  modifies [C02,C03] Node.next, Node.prev
  let T = str(text)
  let c = nmade
  requires [C01,C02,C03] log: cut[nmade] == 0
  ensures [C01,C02,C03,C26] no-error: err == nil
  ensures [C01,C02,C03] all: nmade >= c && cut[c] == 0 && cut[nmade] == len(T) && texts(T, c, nmade)
  ensures [C01] chain: r == (nmade > c ? made[c] : nil) && chained(c, nmade) && owned(c, nmade)
  ensures [C02] pieces: bounds(T, c, nmade) && kinds(T, c, nmade)
  ensures [C03] lines: lines(T, 0, c, nmade)
  safety [C26]
