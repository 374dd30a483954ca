// ast: a source file and its scopes
group packages
// the first scope of the package kind in a list, else its end
logic firstPkg(seq[Scope], seq[string], int, int) int
axiom firstPkg0: forall m seq[Scope], K seq[string], lo int, hi int :: {firstPkg(m, K, lo, hi)} lo >= hi ==> firstPkg(m, K, lo, hi) == hi
axiom firstPkg1: forall m seq[Scope], K seq[string], lo int, hi int :: {firstPkg(m, K, lo, hi), m[lo]} lo < hi ==> firstPkg(m, K, lo, hi) == (K[m[lo]] == "package" ? lo : firstPkg(m, K, lo + 1, hi))
// the node that names the package, from x on; seen: the keyword came before
logic pkgName(seq[*Node], seq[kind.Kind], *Node, bool) *Node
axiom pkgName: forall N seq[*Node], K seq[kind.Kind], x *Node, s bool :: {pkgName(N, K, x, s)}
   pkgName(N, K, x, s) == (x == nil ? nil : s && (K[x] == kind.Raw || K[x] == kind.Basic) ? x : pkgName(N, K, ref(N[x]), s || K[x] == kind.Package))
group

pure nameFrom(x *Node, s bool) = pkgName(heap(Node, next), heap(Node, kind), x, s)
pure pkgIn(m seq[Scope], lo int, hi int) = firstPkg(m, heap(scopeStruct, kind), lo, hi)
// the node that names the package of a list of scopes, nil when there is none
pure named(m seq[Scope], lo int, hi int) = pkgIn(m, lo, hi) >= hi ? nil : nameFrom(heap(scopeStruct, node)[m[pkgIn(m, lo, hi)]], false)
pure scopesIn(m seq[Scope], lo int, hi int) = forall i int :: {m[i]} lo <= i && i < hi ==> m[i] != nil

func goast.findPackageName(scs) (name, err)
  uses packages
  modifies nothing
  requires [C19] scopes: scopesIn(elems(scs), off(scs), off(scs) + len(scs))
  let x = named(elems(scs), off(scs), off(scs) + len(scs))
  ensures [C19] found: x != nil ==> err == nil && name == x.text
  ensures [C19] none: x == nil ==> err == ErrNoPackage && name == ""
  safety [C19]
  inv [C19] for $i int :: 0 - 1 <= $i && $i < len(scs) && pkgIn(elems(scs), off(scs) + $i + 1, off(scs) + len(scs)) == pkgIn(elems(scs), off(scs), off(scs) + len(scs))
  inv [C19] for $x *Node, $s bool :: nameFrom($x, $s) == nameFrom(entry($x), entry($s))

func (*goast.ast).Package(f) (name, err)
  modifies nothing
  requires [C19] receiver: f != nil
  requires [C19] scopes: scopesIn(elems(f.scope), off(f.scope), off(f.scope) + len(f.scope))
  let x = named(elems(f.scope), off(f.scope), off(f.scope) + len(f.scope))
  ensures [C19] found: x != nil ==> err == nil && name == x.text
  ensures [C19] none: x == nil ==> err == ErrNoPackage && name == ""
  safety [C19]

func goast.NewAst(scs) (r, err)
  modifies nothing
  requires [C19] scopes: scopesIn(elems(scs), off(scs), off(scs) + len(scs))
  let x = named(elems(scs), off(scs), off(scs) + len(scs))
  ensures [C19] found: x != nil <==> err == nil
  ensures [C19] none: x == nil ==> err == ErrNoPackage && r == nil
  ensures [C19,C20] given: r != nil ==> isnew(r) && r.scope == scs && r.file == "" && r.dir == "" && r.name == "" && r.ext == ""
  safety [C19]

func (*goast.ast).File(f) (r)
  modifies nothing
  ensures [C20] file: r == (f == nil ? "" : f.file)
  safety [C20]

func (*goast.ast).Dir(f) (r)
  modifies nothing
  ensures [C20] dir: r == (f == nil ? "" : f.dir)
  safety [C20]

func (*goast.ast).Filename(f) (r)
  modifies nothing
  ensures [C20] name: r == (f == nil ? "" : f.name)
  safety [C20]

func (*goast.ast).Ext(f) (r)
  modifies nothing
  ensures [C20] ext: r == (f == nil ? "" : f.ext)
  safety [C20]

func (*goast.ast).Scope(f) (r)
  modifies nothing
  ensures [C20] nil: f == nil ==> r == nil
  ensures [C20] scopes: f != nil ==> r == f.scope
  safety [C20]

// the callback is called on the recorded scopes, and answered as recorded
ghostvar scopeCalls seq[Scope]
ghostvar scopeRets seq[bool]
ghostvar nscopeCalls int
functype func(goast.Scope) bool (x) (ok)
  option [C20] pure
  ghost [C20] scopeCalls[nscopeCalls] := x
  ghost [C20] scopeRets[nscopeCalls] := ok
  ghost [C20] nscopeCalls := nscopeCalls + 1

func (*goast.ast).IterScope(f, fn)
  modifies scopeCalls, scopeRets, nscopeCalls
  requires [C20] receiver: f != nil && fn != nil
  let c = nscopeCalls
  let s = f.scope
  ensures [C20] calls: c <= nscopeCalls && nscopeCalls <= c + len(s) && (forall i int :: {scopeCalls[i]} c <= i && i < nscopeCalls ==> scopeCalls[i] == s[i-c])
  ensures [C20] until-false: (forall i int :: {scopeRets[i]} c <= i && i < nscopeCalls - 1 ==> scopeRets[i]) && (nscopeCalls < c + len(s) ==> nscopeCalls > c && !scopeRets[nscopeCalls-1])
  safety [C20]
  inv [C20] for $i int :: 0 - 1 <= $i && $i < len(f.scope) && nscopeCalls == old(nscopeCalls) + $i + 1
  inv [C20] forall i int :: {scopeCalls[i]} old(nscopeCalls) <= i && i < nscopeCalls ==> scopeCalls[i] == old(f.scope)[i-old(nscopeCalls)]
  inv [C20] forall i int :: {scopeRets[i]} old(nscopeCalls) <= i && i < nscopeCalls ==> scopeRets[i]

func (*goast.ast).SetScope(f, scs) (r)
  modifies nothing
  requires [C20] receiver: f != nil
  ensures [C20] new: r != nil && isnew(r) && r.scope == scs && r.file == f.file && r.dir == f.dir && r.name == f.name && r.ext == f.ext
  safety [C20]

func (*goast.ast).AppendScope(f, scs)
  modifies ast.scope
  requires [C20] receiver: f != nil
  let n = len(f.scope)
  ensures [C20] length: len(f.scope) == n + len(scs)
  ensures [C20] kept: forall i int :: 0 <= i && i < n ==> f.scope[i] == old(f.scope[i])
  ensures [C20] added: forall i int :: n <= i && i < n + len(scs) ==> f.scope[i] == old(scs[i - n])
  ensures [C20] others: forall x *ast :: {x.scope} x != nil && x != f ==> x.scope == old(x.scope)
  safety [C20]

func (*goast.scopeStruct).Copy(d) (r)
  modifies new Node.orig
  requires [C10,C20] receiver: d != nil
  requires [C10,C20] base: int(d.node) < copyBase && copyBase <= alloc()
  requires [C10,C20] links: linksUpTo(copyBase)
  ensures [C10,C20] self: r != nil && isnew(r) && r.line == d.line && r.kind == d.kind && (r.node == nil <==> d.node == nil)
  ensures [C10,C20] node: r.node != nil ==> isnew(r.node) && r.node.orig == d.node
  ensures [C10,C20] copies: forall x *Node :: {x.orig} isnew(x) && x.orig != nil ==> x.orig < copyBase && x.line == x.orig.line && x.kind == x.orig.kind && x.text == x.orig.text
  ensures [C10,C20] chain: forall x *Node :: {x.prev} isnew(x) && x.orig != nil ==> (x.prev == nil <==> x.orig.prev == nil)
     && (x.prev != nil ==> isnew(x.prev) && x.prev.orig == x.orig.prev && x.prev.next == x)
     && (x.next == nil <==> x.orig.next == nil)
     && (x.next != nil ==> isnew(x.next) && x.next.orig == x.orig.next && x.next.prev == x)
  safety [C10,C20]

pure copyOf(a Scope, b Scope) = isnew(a) && a.line == b.line && a.kind == b.kind && (a.node == nil <==> b.node == nil) && (a.node != nil ==> isnew(a.node) && a.node.orig == b.node)

func (*goast.ast).Copy(f) (r)
  modifies new Node.orig
  requires [C10,C20] receiver: f != nil
  requires [C10,C20] base: copyBase == alloc()
  requires [C10,C20] links: linksUpTo(copyBase)
  requires [C10,C20] scopes: forall i int :: {f.scope[i]} 0 <= i && i < len(f.scope) ==> f.scope[i] != nil
  ensures [C10,C20] new: r != nil && isnew(r) && r.file == f.file && r.dir == f.dir && r.name == f.name && r.ext == f.ext
  ensures [C10,C20] length: len(r.scope) == len(f.scope)
  ensures [C10,C20] scopes: forall i int :: {r.scope[i]} 0 <= i && i < len(f.scope) ==> copyOf(r.scope[i], f.scope[i])
  ensures [C10,C20] copies: forall x *Node :: {x.orig} isnew(x) && x.orig != nil ==> x.orig < copyBase && x.line == x.orig.line && x.kind == x.orig.kind && x.text == x.orig.text
  ensures [C10,C20] chain: forall x *Node :: {x.prev} isnew(x) && x.orig != nil ==> (x.prev == nil <==> x.orig.prev == nil)
     && (x.prev != nil ==> isnew(x.prev) && x.prev.orig == x.orig.prev && x.prev.next == x)
     && (x.next == nil <==> x.orig.next == nil)
     && (x.next != nil ==> isnew(x.next) && x.next.orig == x.orig.next && x.next.prev == x)
  safety [C10,C20]
  inv [C10,C20] for $i int, $s []Scope :: 0 - 1 <= $i && $i < len(f.scope) && len($s) == $i + 1 && isnew(arr($s))
  inv [C10,C20] for $i int, $s []Scope :: forall i int :: {$s[i]} 0 <= i && i <= $i ==> $s[i] != nil && copyOf($s[i], f.scope[i])
  inv [C10,C20] forall x *Node :: {x.orig} isnew(x) && x.orig != nil ==> x.orig < copyBase && x.line == x.orig.line && x.kind == x.orig.kind && x.text == x.orig.text
  inv [C10,C20] forall x *Node :: {x.prev} isnew(x) && x.orig != nil ==> (x.prev == nil <==> x.orig.prev == nil)
     && (x.prev != nil ==> isnew(x.prev) && x.prev.orig == x.orig.prev && x.prev.next == x)
     && (x.next == nil <==> x.orig.next == nil)
     && (x.next != nil ==> isnew(x.next) && x.next.orig == x.orig.next && x.next.prev == x)

func goast.NewScope(line, kind, node) (r)
  ensures [C03] given: r != nil && isnew(r) && r.line == line && r.node == node
  safety [C03]

func (*goast.scopeStruct).Line(d) (r)
  ensures [C03] from-one: r == (d == nil ? 0 - 1 : d.line + 1)
  safety [C03]

// the scopes that the last parsing of a text gave
ghostvar parsedIn seq[Scope]
ghostvar parsedLo int
ghostvar parsedHi int

func goast.newScopeKind(s) (k)
  uses [C01,C05] scopeKinds, scopes
  option [C03,C19,C20,C21] havoc
  ensures [C01,C05] kind: k == skindOf(s)
  inv [C01,C05] for $i int :: $i >= 0 ==> s != "package"
  inv [C01,C05] for $i int :: $i >= 1 ==> !lead(s, 47, 47)
  inv [C01,C05] for $i int :: $i >= 2 ==> !lead(s, 47, 42)
  inv [C01,C05] for $i int :: $i >= 3 ==> s != "import"
  inv [C01,C05] for $i int :: $i >= 4 ==> s != "var"
  inv [C01,C05] for $i int :: $i >= 5 ==> s != "const"
  inv [C01,C05] for $i int :: $i >= 6 ==> s != "type"
  inv [C01,C05] for $i int :: $i >= 7 ==> s != "func"

// the piece x stands for, nmade behind the last
pure at(x *Node) = x == nil ? nmade : x.num
// the chain as the loop found it, cut before the pieces behind c and before h that begin a scope
pure cuts(T string, c int, x *Node, h int) = x != nil && x.num < h && beg(T, cut, c, x.num)
pure cutUpTo(T string, c int, h int) = (forall x *Node :: {x.next} x != nil && !isold(x) ==> x.next == (cuts(T, c, entry(x.next), h) ? nil : entry(x.next)))
  && (forall x *Node :: {x.prev} x != nil && !isold(x) ==> x.prev == (entry(x.prev) != nil && cuts(T, c, x, h) ? nil : entry(x.prev)))
pure firstBeg(T string, c int) = nmade == c || beg(T, cut, c, c) ? c : nb(T, cut, c, c, nmade)
// a scope with the piece and the kind it begins with
pure starts(T string, c int, s Scope) = s != nil && s.node != nil && s.node == made[s.node.num] && c <= s.node.num && s.node.num < nmade && beg(T, cut, c, s.node.num)
  && s.kind == skindOf(sub(T, cut[s.node.num], cut[s.node.num+1]))
// its chain begins there and has the text up to the next beginning
pure whole(T string, c int, s Scope) = s.node.prev == nil && s.node.tail == sub(T, cut[s.node.num], cut[nb(T, cut, c, s.node.num, nmade)])
pure allStart(T string, c int, m seq[Scope], lo int, hi int) = forall i int :: {m[i]} lo <= i && i < hi ==> starts(T, c, m[i])
pure allWhole(T string, c int, m seq[Scope], lo int, hi int) = forall i int :: {m[i]} lo <= i && i < hi ==> whole(T, c, m[i])
// each begins where the one before ends
pure follow(T string, c int, m seq[Scope], lo int, hi int) = forall i int, k int :: {m[i], m[k]} lo <= i && k < hi && i < k && k <= i + 1 ==> m[k].node.num == nb(T, cut, c, m[i].node.num, nmade)
// the last one ends at e, the first begins at b
pure endsAt(T string, c int, m seq[Scope], lo int, hi int, e int) = forall i int :: {m[i]} lo <= i && i < hi && hi <= i + 1 ==> nb(T, cut, c, m[i].node.num, nmade) == e
pure beginsAt(m seq[Scope], lo int, hi int, b int) = forall i int :: {m[i]} lo <= i && i < hi && i <= lo ==> m[i].node.num == b

func goast.ParseScope(line, text) (scs, err)
  option [C01,C05] noframes
  option [C01,C05] prefer $n phi, $h cell
  option [C01,C05] frames E<goast.Scope>, scopeStruct.kind, scopeStruct.line, scopeStruct.node
  modifies [C19,C20,C21] everything
  modifies [C03] heaps, made, nmade, cut, new Node.num
  uses [C01,C05] marks, scopes, text
  modifies [C01,C05] heaps, made, nmade, cut, new Node.num, Node.tail
  let T = str(text)
  let c = nmade
  requires [C03] log: cut[nmade] == 0
  ensures [C03] no-error: err == nil
  ensures [C03] lines: lines(T, line, c, nmade)
  ensures [C03] scope-lines: forall i int :: 0 <= i && i < len(scs) ==> scs[i] != nil && scs[i].line == (scs[i].node == nil ? 0 - 2 : scs[i].node.line)
  inv [C03] for $s []Scope :: (len($s) > 0 ==> isnew(arr($s))) && (forall i int :: {$s[i]} 0 <= i && i < len($s) ==> $s[i] != nil && $s[i].line == ($s[i].node == nil ? 0 - 2 : $s[i].node.line))
  // C01, C05: scopes begin exactly where pieces begin one, and each has the text up to the next
  requires [C01,C05] log: cut[nmade] == 0
  requires [C01,C05] region: wfBase == alloc()
  ensures [C01,C05] no-error: err == nil
  ensures [C01,C05] pieces: nmade >= c && cut[c] == 0 && cut[nmade] == len(T)
  ensures [C01,C05] chains: wf()
  ensures [C01,C05] scopes: allStart(T, c, elems(scs), off(scs), off(scs) + len(scs)) && allWhole(T, c, elems(scs), off(scs), off(scs) + len(scs))
  ensures [C01,C05] first: beginsAt(elems(scs), off(scs), off(scs) + len(scs), firstBeg(T, c))
  ensures [C01,C05] none: len(scs) == 0 ==> firstBeg(T, c) == nmade
  ensures [C01,C05] next: follow(T, c, elems(scs), off(scs), off(scs) + len(scs))
  ensures [C01,C05] last: endsAt(T, c, elems(scs), off(scs), off(scs) + len(scs), nmade)
  // the scan: the piece $n is next, the scope of kind $k begins at $h, the line is $l, the scopes $s are made
  inv [C01,C05] for $n *Node, $h *Node :: (nmade == c ==> $h == nil && $n == nil)
    && (nmade > c ==> $h != nil && c <= $h.num && $h.num < nmade && $h == made[$h.num] && mkn(made[$h.num-1]) && $h.num <= at($n))
    && ($n != nil ==> c <= $n.num && $n.num < nmade && $n == made[$n.num] && mkn(made[$n.num+1]) && mki($n.num) && mki($n.num+1) && mki($n.num-1))
    && cutUpTo(T, c, $h == nil ? c : $h.num)
    && (nmade > c ==> (forall j int :: {beg(T, cut, c, j)} $h.num < j && j < at($n) ==> !beg(T, cut, c, j)))
    && (nmade > c && at($n) > $h.num ==> nb(T, cut, c, $h.num, nmade) == nb(T, cut, c, at($n) - 1, nmade))
  inv [C01,C05] for $h *Node :: tied($h)
  inv [C01,C05] for $n *Node, $l int :: $n != nil ==> $l == ($n.num == c ? line - 1 : line + nl(T, cut[$n.num-1]))
  inv [C01,C05] for $n *Node, $h *Node, $k scope.Kind :: ($k == "" && nmade > c ==> $h.num == c && (at($n) > c ==> !beg(T, cut, c, c)))
    && ($k != "" ==> nmade > c && $h.num < at($n) && beg(T, cut, c, $h.num) && $k == skindOf(sub(T, cut[$h.num], cut[$h.num+1])))
  // the scopes gathered
  inv [C01,C05] mki(nmade)
  inv [C01,C05] for $s_ []Scope :: (len($s_) > 0 ==> isnew(arr($s_))) && allStart(T, c, elems($s_), off($s_), off($s_) + len($s_))
  inv [C01,C05] for $s_ []Scope :: follow(T, c, elems($s_), off($s_), off($s_) + len($s_))
  inv [C01,C05] for $s_ []Scope :: beginsAt(elems($s_), off($s_), off($s_) + len($s_), firstBeg(T, c))
  inv [C01,C05] for $s []Scope, $h *Node, $k scope.Kind :: ($k == "" ==> len($s) == 0)
    && endsAt(T, c, elems($s), off($s), off($s) + len($s), $h.num)
    && (len($s) == 0 && $k != "" ==> $h.num == firstBeg(T, c))
  // refining the kinds
  inv [C01,C05] wfBase > 0 && apart()
  inv [C01,C05] mutual()
  inv [C01,C05] tails()
  inv [C01,C05] for $s_ []Scope :: allWhole(T, c, elems($s_), off($s_), off($s_) + len($s_))

  ensures [C19,C20,C21] scopes: err == nil ==> scopesIn(elems(scs), off(scs), off(scs) + len(scs))
  ghost [C19,C20,C21] parsedIn := elems(scs)
  ghost [C19,C20,C21] parsedLo := off(scs)
  ghost [C19,C20,C21] parsedHi := off(scs) + len(scs)
  ensures [C19,C20,C21] recorded: parsedIn == elems(scs) && parsedLo == off(scs) && parsedHi == off(scs) + len(scs)
  inv [C19,C20,C21] for $s []Scope :: scopesIn(elems($s), off($s), off($s) + len($s)) && (len($s) > 0 ==> isnew(arr($s)))

func goast.ParseAst(file) (r, err)
  modifies [C19,C20,C21] everything
  let path = goPath(file)
  let readable = openable(path) && readable(path) && fmtOk(disk[path])
  ensures [C19] package: err == nil ==> r != nil && named(elems(r.scope), off(r.scope), off(r.scope) + len(r.scope)) != nil
  ensures [C19] none: readable && named(parsedIn, parsedLo, parsedHi) == nil ==> err != nil
  ensures [C20] source: err == nil ==> r != nil && isnew(r) && r.file == file && r.dir == dirOf(file) && r.name == baseOf(file) && r.ext == extOf(file)
  ensures [C20] scopes: err == nil ==> elems(r.scope) == parsedIn && off(r.scope) == parsedLo && len(r.scope) == parsedHi - parsedLo
  ensures [C21] missing: !openable(path) && missing(path) ==> r == nil && err == ErrNotExist
  ensures [C21] failure: !readable ==> r == nil && err != nil
  safety [C19,C20,C21]
