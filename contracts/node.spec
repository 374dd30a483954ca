// node: the doubly linked list
ghostfield Node.rank real
ghostfield Node.orig *Node fresh
ghostvar calls seq[*Node]
ghostvar rets seq[bool]
ghostvar ncalls int

// neighbours of a node that may be nil
pure nx(x *Node) = x == nil ? nil : x.next
pure pv(x *Node) = x == nil ? nil : x.prev
// links are mutual, and the nodes can be ordered so that every link goes upwards (no cycle)
pure links() = (forall x *Node :: {x.next} x != nil && x.next != nil ==> x.next.prev == x && x.rank < x.next.rank)
   && (forall x *Node :: {x.prev} x != nil && x.prev != nil ==> x.prev.next == x && x.prev.rank < x.rank)

// the node and its neighbours name each other
pure tied(x *Node) = x == nil || (x.next != x && x.prev != x && (x.next != nil ==> x.next.prev == x) && (x.prev != nil ==> x.prev.next == x))

func goast.NewNode(line, text, kinds) (r)
  modifies made, nmade
  modifies [C01,C02,C03,C05] cut, new Node.num
  ensures [C01,C02,C03,C05,C13] made: r != nil && isnew(r) && r.line == line && r.text == text && r.next == nil && r.prev == nil
  ensures [C01,C02,C05,C13] given-kind: len(kinds) != 0 ==> r.kind == old(kinds[0])
  ensures [C02,C13] own-kind: len(kinds) == 0 ==> r.kind == kindOf(text)
  // the log of the nodes made, and of the bytes they took
  ghost [C01,C02,C03,C05] cut[nmade+1] := cut[nmade] + len(text)
  ghost [C01,C02,C03,C05] r.num := nmade
  ghost [C01,C02,C03,C05,C13] made[nmade] := r
  ghost [C01,C02,C03,C05,C13] nmade := nmade + 1
  ensures [C01,C02,C03,C05,C13] log: made == store(old(made), old(nmade), r) && nmade == old(nmade) + 1
  ensures [C01,C02,C03,C05] cut: cut == store(old(cut), old(nmade) + 1, old(cut[nmade]) + len(text)) && r.num == old(nmade)
  ensures [C01,C05] alone: forall x *Node :: {x.next} {x.prev} x != nil && isnew(x) ==> x.next == nil && x.prev == nil
  safety [C09,C13,C26]

func goast.NewNodes(startLine, texts) (r)
  modifies made, nmade
  let c = nmade
  let m = len(texts)
  ensures [C13] none: m == 0 ==> r == nil && nmade == c
  ensures [C13] first: m != 0 ==> r == made[c] && nmade == c + m && r.prev == nil && r.line == startLine && made[nmade-1].next == nil
  ensures [C13] nodes: forall i int :: {made[i]} c <= i && i < c + m ==> made[i] != nil && isnew(made[i]) && made[i].text == old(texts[i-c]) && made[i].kind == kindOf(made[i].text)
  ensures [C13] linked: forall i int :: {made[i]} c <= i && i < c + m - 1 ==> made[i].next == made[i+1] && made[i+1].prev == made[i]
  ensures [C13] lines: forall i int :: {made[i]} c <= i && i < c + m - 1 ==> made[i+1].line == made[i].line + nlines(made[i].text)
  safety [C09,C13,C26]
  inv [C13] for $i int :: 0 - 1 <= $i && $i < len(texts) && nmade == old(nmade) + $i + 2 && $i < len(texts) - 1
  inv [C13] for $x *Node :: $x != nil && $x == made[nmade-1] && $x.next == nil && made[old(nmade)] != nil && made[old(nmade)].prev == nil
  inv [C13] for $h_ *Node :: $h_ == made[old(nmade)]
  inv [C13] for $x *Node :: $x.prev == (nmade == old(nmade) + 1 ? nil : made[nmade-2]) && (nmade > old(nmade) + 1 ==> $x.prev != nil && $x.prev != $x && $x.prev.next == $x)
  inv [C13] for $l int, $x *Node :: $l == $x.line + nlines($x.text)
  inv [C13] made[old(nmade)].line == startLine
  inv [C13] forall i int :: {made[i]} old(nmade) <= i && i < nmade ==> made[i] != nil && isnew(made[i]) && made[i].text == old(texts[i-old(nmade)]) && made[i].kind == kindOf(made[i].text)
  inv [C13] forall i int, j int :: {made[i], made[j]} old(nmade) <= i && i < nmade && old(nmade) <= j && j < nmade && i != j ==> made[i] != made[j]
  inv [C13] forall i int :: {made[i]} old(nmade) <= i && i < nmade - 1 ==> made[i].next == made[i+1] && made[i+1].prev == made[i]
  inv [C13] forall i int :: {made[i]} old(nmade) <= i && i < nmade - 1 ==> made[i+1].line == made[i].line + nlines(made[i].text)

// copies: orig(r) is the node a copy was made from
ghostvar copyBase int
pure linksUpTo(b int) = forall x *Node :: {x.next} {x.prev} 0 < x && x < b ==> (x.next < b && x.prev < b && (x.next != nil ==> x.next.prev == x) && (x.prev != nil ==> x.prev.next == x))

func (*goast.Node).deepCopy(n, prev, next) (r)
  modifies new Node.orig
  requires [C10,C20] base: int(n) < copyBase && copyBase <= alloc()
  requires [C10,C20] links: linksUpTo(copyBase)
  requires [C10,C20] one-side: prev == nil || next == nil
  ghost [C10,C20] r.orig := n
  ensures [C09,C10,C20] nil: n == nil ==> r == nil
  ensures [C10,C20] self: n != nil ==> r != nil && isnew(r) && r.orig == n && r.line == n.line && r.kind == n.kind && r.text == n.text
  ensures [C10,C20] copies: forall x *Node :: {x.orig} isnew(x) && x.orig != nil ==> x.orig < copyBase && x.line == x.orig.line && x.kind == x.orig.kind && x.text == x.orig.text
  ensures [C10,C20] given-prev: r != nil && prev != nil ==> r.prev == prev
  ensures [C10,C20] given-next: r != nil && next != nil ==> r.next == next
  ensures [C10,C20] prev: forall x *Node :: {x.prev} isnew(x) && x.orig != nil && !(x == r && prev != nil) ==> (x.prev == nil <==> x.orig.prev == nil)
     && (x.prev != nil ==> isnew(x.prev) && x.prev.orig == x.orig.prev && x.prev.next == x)
  ensures [C10,C20] next: forall x *Node :: {x.next} isnew(x) && x.orig != nil && !(x == r && next != nil) ==> (x.next == nil <==> x.orig.next == nil)
     && (x.next != nil ==> isnew(x.next) && x.next.orig == x.orig.next && x.next.prev == x)
  safety [C09,C10,C20]

func (*goast.Node).Copy(n, deep) (r)
  modifies new Node.orig
  let full = len(deep) != 0 && deep[0]
  requires [C10,C20] base: int(n) < copyBase && copyBase <= alloc()
  requires [C10,C20] links: linksUpTo(copyBase)
  ghost [C10,C20] r.orig := n
  ensures [C09,C10,C20] nil: n == nil ==> r == nil
  ensures [C10,C20] self: n != nil ==> r != nil && isnew(r) && r.orig == n && r.line == n.line && r.kind == n.kind && r.text == n.text
  ensures [C10,C20] single: n != nil && !full ==> r.next == nil && r.prev == nil
  ensures [C10,C20] copies: full ==> forall x *Node :: {x.orig} isnew(x) && x.orig != nil ==> x.orig < copyBase && x.line == x.orig.line && x.kind == x.orig.kind && x.text == x.orig.text
  ensures [C10,C20] chain: full ==> forall x *Node :: {x.prev} isnew(x) && x.orig != nil ==> (x.prev == nil <==> x.orig.prev == nil)
     && (x.prev != nil ==> isnew(x.prev) && x.prev.orig == x.orig.prev && x.prev.next == x)
     && (x.next == nil <==> x.orig.next == nil)
     && (x.next != nil ==> isnew(x.next) && x.next.orig == x.orig.next && x.next.prev == x)
  safety [C09,C10,C20]

func (*goast.Node).Next(n) (r)
  ensures [C06,C09,C12] r == nx(n)
  safety [C09,C26]

func (*goast.Node).Prev(n) (r)
  ensures [C06,C09,C12] r == pv(n)
  safety [C09,C26]

func (*goast.Node).Line(n) (r)
  ensures [C09] r == (n == nil ? 0 - 2 : n.line)
  safety [C09,C26]

func (*goast.Node).Kind(n) (r)
  ensures [C09] n == nil ==> r == kind("", "")
  ensures [C09] n != nil ==> r == n.kind
  safety [C09,C26]

func (*goast.Node).Text(n) (r)
  ensures [C09] r == (n == nil ? "" : n.text)
  safety [C09,C26]

func (*goast.Node).SetKind(n, k)
  modifies Node.kind
  ensures [C09] forall x *Node :: {x.kind} x != nil ==> x.kind == (x == n ? k : old(x.kind))
  safety [C09,C26]

func (*goast.Node).SetText(n, text)
  modifies Node.text
  ensures [C09] forall x *Node :: {x.text} x != nil ==> x.text == (x == n ? text : old(x.text))
  safety [C09,C26]

func (*goast.Node).InsertNext(n, nn) (a, b)
  modifies Node.next, Node.prev
  modifies [C06] Node.rank
  requires [C06] links()
  requires [C01,C05,C07,C13] tied: tied(n) && tied(nn)
  ghost [C06] nn.rank := n == nil ? old(nn.rank) : n == nn || old(nx(n)) == nn ? old(nn.rank) : old(n.next) == nil ? old(n.rank) + 1 : (old(n.rank) + old(n.next.rank)) / 2
  ensures [C06] links: links()
  ensures [C01,C05,C07,C13] noop: n == nn || old(nx(n)) == nn ==> a == nil && b == nil
    && (forall x *Node :: {x.next} x != nil ==> x.next == old(x.next)) && (forall x *Node :: {x.prev} x != nil ==> x.prev == old(x.prev))
  ensures [C01,C05,C07,C13] next: n != nn && old(nx(n)) != nn ==> forall x *Node :: {x.next} x != nil ==>
      x.next == (x == n ? nn : x == nn ? old(nx(n)) : x == old(pv(nn)) ? nil : old(x.next))
  ensures [C01,C05,C07,C13] prev: n != nn && old(nx(n)) != nn ==> forall x *Node :: {x.prev} x != nil ==>
      x.prev == (x == nn ? n : x == old(nx(n)) ? nn : x == old(nx(nn)) ? nil : old(x.prev))
  ensures [C07] returns: n != nn && old(nx(n)) != nn ==> a == old(pv(nn)) && b == old(nx(nn))
  safety [C09,C26]

func (*goast.Node).InsertPrev(n, nn) (a, b)
  modifies Node.next, Node.prev
  modifies [C06] Node.rank
  requires [C06] links()
  requires [C07] tied: tied(n) && tied(nn)
  ghost [C06] nn.rank := n == nil ? old(nn.rank) : n == nn || old(pv(n)) == nn ? old(nn.rank) : old(n.prev) == nil ? old(n.rank) - 1 : (old(n.rank) + old(n.prev.rank)) / 2
  ensures [C06] links: links()
  ensures [C07] noop: n == nn || old(pv(n)) == nn ==> a == nil && b == nil
    && (forall x *Node :: {x.next} x != nil ==> x.next == old(x.next)) && (forall x *Node :: {x.prev} x != nil ==> x.prev == old(x.prev))
  ensures [C07] next: n != nn && old(pv(n)) != nn ==> forall x *Node :: {x.next} x != nil ==>
      x.next == (x == nn ? n : x == old(pv(n)) ? nn : x == old(pv(nn)) ? nil : old(x.next))
  ensures [C07] prev: n != nn && old(pv(n)) != nn ==> forall x *Node :: {x.prev} x != nil ==>
      x.prev == (x == n ? nn : x == nn ? old(pv(n)) : x == old(nx(nn)) ? nil : old(x.prev))
  ensures [C07] returns: n != nn && old(pv(n)) != nn ==> a == old(pv(nn)) && b == old(nx(nn))
  safety [C09,C26]

func (*goast.Node).ReplaceNext(n, nn) (a, b)
  modifies Node.next, Node.prev
  option [C02,C03] havoc
  requires [C06] links()
  requires [C01,C05,C07] tied: tied(n) && tied(nn)
  requires [C06] order: n == nil || nn == nil || n == nn || n.rank < nn.rank
  ensures [C06] links: links()
  ensures [C01,C05,C07] noop: n == nn || old(nx(n)) == nn ==> a == nil && b == nil
    && (forall x *Node :: {x.next} x != nil ==> x.next == old(x.next)) && (forall x *Node :: {x.prev} x != nil ==> x.prev == old(x.prev))
  ensures [C01,C05,C07] next: n != nn && old(nx(n)) != nn ==> forall x *Node :: {x.next} x != nil ==>
      x.next == (x == n ? nn : x == old(pv(nn)) ? nil : old(x.next))
  ensures [C01,C05,C07] prev: n != nn && old(nx(n)) != nn ==> forall x *Node :: {x.prev} x != nil ==>
      x.prev == (x == nn ? n : x == old(nx(n)) ? nil : old(x.prev))
  ensures [C07] returns: n != nn && old(nx(n)) != nn ==> a == old(pv(nn)) && b == old(nx(n))
  safety [C09,C26]

func (*goast.Node).ReplacePrev(n, nn) (a, b)
  modifies Node.next, Node.prev
  requires [C06] links()
  requires [C07] tied: tied(n) && tied(nn)
  requires [C06] order: n == nil || nn == nil || n == nn || nn.rank < n.rank
  ensures [C06] links: links()
  ensures [C07] noop: n == nn || old(pv(n)) == nn ==> a == nil && b == nil
    && (forall x *Node :: {x.next} x != nil ==> x.next == old(x.next)) && (forall x *Node :: {x.prev} x != nil ==> x.prev == old(x.prev))
  ensures [C07] next: n != nn && old(pv(n)) != nn ==> forall x *Node :: {x.next} x != nil ==>
      x.next == (x == nn ? n : x == old(pv(n)) ? nil : old(x.next))
  ensures [C07] prev: n != nn && old(pv(n)) != nn ==> forall x *Node :: {x.prev} x != nil ==>
      x.prev == (x == n ? nn : x == old(nx(nn)) ? nil : old(x.prev))
  ensures [C07] returns: n != nn && old(pv(n)) != nn ==> a == old(pv(n)) && b == old(nx(nn))
  safety [C09,C26]

func (*goast.Node).TakeNext(n) (r)
  modifies Node.next, Node.prev
  modifies [C01,C05,C22] Node.tail
  requires [C06] links()
  requires [C08] tied: tied(n) && tied(nx(n)) && (n == nil || nx(nx(n)) != n)
  requires [C01,C05,C22] tied: apart() && (n != nil && int(n) >= wfBase ==> tied(n) && tied(nx(n)) && nx(nx(n)) != n)
  ghost [C01,C05,C22] r.tail := r.text
  ensures [C06] links: links()
  ensures [C01,C05,C08,C22] result: r == old(nx(n))
  ensures [C08] next: forall x *Node :: {x.next} x != nil ==> x.next == (x == r ? nil : x == n ? old(nx(r)) : old(x.next))
  ensures [C08] prev: forall x *Node :: {x.prev} x != nil ==> x.prev == (x == r ? nil : r != nil && x == old(nx(r)) ? n : old(x.prev))
  ensures [C01,C05,C22] apart: apart()
  ensures [C01,C05,C22] next: forall x *Node :: {x.next} x != nil && int(x) >= wfBase ==> x.next == (x == r ? nil : x == n ? old(nx(r)) : old(x.next))
  ensures [C01,C05,C22] prev: forall x *Node :: {x.prev} x != nil && int(x) >= wfBase ==> x.prev == (x == r ? nil : r != nil && x == old(nx(r)) ? n : old(x.prev))
  ensures [C01,C05,C22] tail: forall x *Node :: {x.tail} x != nil ==> x.tail == (x == r ? x.text : old(x.tail))
  safety [C09,C26]

func (*goast.Node).TakePrev(n) (r)
  modifies Node.next, Node.prev
  requires [C06] links()
  requires [C05,C08] tied: tied(n) && tied(pv(n)) && (n == nil || pv(pv(n)) != n)
  ensures [C06] links: links()
  ensures [C08] result: r == old(pv(n))
  ensures [C08] next: forall x *Node :: {x.next} x != nil ==> x.next == (x == r ? nil : r != nil && x == old(pv(r)) ? n : old(x.next))
  ensures [C08] prev: forall x *Node :: {x.prev} x != nil ==> x.prev == (x == r ? nil : x == n ? old(pv(r)) : old(x.prev))
  safety [C09,C26]

func (*goast.Node).RemoveNext(n) (r)
  modifies Node.next, Node.prev
  requires [C06] links()
  requires [C05,C08] tied: tied(n)
  ensures [C06] links: links()
  ensures [C05,C08] result: r == old(nx(n))
  ensures [C05,C08] next: forall x *Node :: {x.next} x != nil ==> x.next == (x == n ? nil : old(x.next))
  ensures [C05,C08] prev: forall x *Node :: {x.prev} x != nil ==> x.prev == (x == r ? nil : old(x.prev))
  safety [C09,C26]

func (*goast.Node).RemovePrev(n) (r)
  modifies Node.next, Node.prev
  requires [C06] links()
  requires [C05,C08] tied: tied(n)
  ensures [C06] links: links()
  ensures [C05,C08] result: r == old(pv(n))
  ensures [C05,C08] next: forall x *Node :: {x.next} x != nil ==> x.next == (x == r ? nil : old(x.next))
  ensures [C05,C08] prev: forall x *Node :: {x.prev} x != nil ==> x.prev == (x == n ? nil : old(x.prev))
  safety [C09,C26]

func (*goast.Node).Isolate(n)
  modifies Node.next, Node.prev
  requires [C06,C11] links()
  requires [C08] tied: tied(n)
  ensures [C06,C11] links: links()
  ensures [C08,C11] next: forall x *Node :: {x.next} x != nil ==> x.next == (x == n || x == old(pv(n)) ? nil : old(x.next))
  ensures [C08,C11] prev: forall x *Node :: {x.prev} x != nil ==> x.prev == (x == n || x == old(nx(n)) ? nil : old(x.prev))
  safety [C09,C26]

// iteration: the callback is called on the recorded nodes, and answered as recorded
functype func(*goast.Node) bool (x) (ok)
  option [C12] pure
  ghost [C12] calls[ncalls] := x
  ghost [C12] rets[ncalls] := ok
  ghost [C12] ncalls := ncalls + 1

pure walked(n *Node, r *Node, c0 int, fwd bool) = (n == nil ==> ncalls == c0 && r == nil)
    && (n != nil ==> ncalls > c0 && calls[c0] == n)
    && (forall i int :: {calls[i]} c0 <= i && i < ncalls ==> calls[i] != nil)
    && (forall i int :: {rets[i]} c0 <= i && i < ncalls - 1 ==> rets[i] && calls[i+1] == (fwd ? calls[i].next : calls[i].prev))
    && (n != nil && r == nil ==> rets[ncalls-1] && (fwd ? calls[ncalls-1].next : calls[ncalls-1].prev) == nil)
    && (r != nil ==> !rets[ncalls-1] && r == calls[ncalls-1])

func (*goast.Node).IterNext(n, fn) (r)
  modifies [C12] calls, rets, ncalls
  requires [C12] callback: fn != nil
  ensures [C12] walks: walked(n, r, old(ncalls), true)
  inv [C12] for $x *Node :: old(ncalls) <= ncalls && (ncalls == old(ncalls) ==> $x == n) && (ncalls > old(ncalls) ==> n != nil && calls[old(ncalls)] == n && rets[ncalls-1] && $x == calls[ncalls-1].next)
  inv [C12] forall i int :: {calls[i]} old(ncalls) <= i && i < ncalls ==> calls[i] != nil
  inv [C12] forall i int :: {rets[i]} old(ncalls) <= i && i < ncalls - 1 ==> rets[i] && calls[i+1] == calls[i].next

func (*goast.Node).IterPrev(n, fn) (r)
  modifies [C12] calls, rets, ncalls
  requires [C12] callback: fn != nil
  ensures [C12] walks: walked(n, r, old(ncalls), false)
  inv [C12] for $x *Node :: old(ncalls) <= ncalls && (ncalls == old(ncalls) ==> $x == n) && (ncalls > old(ncalls) ==> n != nil && calls[old(ncalls)] == n && rets[ncalls-1] && $x == calls[ncalls-1].prev)
  inv [C12] forall i int :: {calls[i]} old(ncalls) <= i && i < ncalls ==> calls[i] != nil
  inv [C12] forall i int :: {rets[i]} old(ncalls) <= i && i < ncalls - 1 ==> rets[i] && calls[i+1] == calls[i].prev

group ends
// the far end of the chain of x along a link: x itself when it has no link, else the end of what it links to
logic endOf(seq[*Node], *Node) *Node
axiom endOf: forall m seq[*Node], x *Node :: {endOf(m, x)} endOf(m, x) == (m[x] == nil ? x : endOf(m, ref(m[x])))

group

func (*goast.Node).First(n) (r)
  modifies nothing
  option inlines (*goast.Node).IterPrev
  uses ends
  ensures [C12] first: (n == nil ==> r == nil) && (n != nil ==> r != nil && r == endOf(heap(Node, prev), n) && r.prev == nil)
  safety [C09,C26]
  inv [C12] for $x *Node :: (n == nil <==> $x == nil) && (n != nil ==> endOf(heap(Node, prev), $x) == endOf(heap(Node, prev), n))

func (*goast.Node).Last(n) (r)
  modifies nothing
  option inlines (*goast.Node).IterNext
  uses ends
  ensures [C12] last: (n == nil ==> r == nil) && (n != nil ==> r != nil && r == endOf(heap(Node, next), n) && r.next == nil)
  safety [C09,C26]
  inv [C12] for $x *Node :: (n == nil <==> $x == nil) && (n != nil ==> endOf(heap(Node, next), $x) == endOf(heap(Node, next), n))

group joins
// mki(x) is always true: it only names a number
logic mki(int) bool
axiom mki: forall x int :: {mki(x)} mki(x)
// the first position that holds a node
logic firstAt(seq[*Node], int, int) int
axiom firstAt0: forall m seq[*Node], lo int, hi int :: {firstAt(m, lo, hi)} lo >= hi ==> firstAt(m, lo, hi) == hi
axiom firstAt1: forall m seq[*Node], lo int, hi int :: {firstAt(m, lo, hi), m[lo]} lo < hi ==> firstAt(m, lo, hi) == (m[lo] == nil ? firstAt(m, lo + 1, hi) : lo)
// texts of a list of strings, of the nodes in a list (without nil and r) in list order and in reverse order
logic joinS(seq[string], int, int) string
axiom joinS0: forall a seq[string], lo int :: {joinS(a, lo, lo)} joinS(a, lo, lo) == ""
axiom joinS1: forall a seq[string], lo int, p int, q int :: {joinS(a, lo, q), mki(p)} lo <= p && q == p + 1 ==> joinS(a, lo, q) == cat(joinS(a, lo, p), a[p])
logic joinR(seq[string], int, int) string
axiom joinR0: forall a seq[string], lo int :: {joinR(a, lo, lo)} joinR(a, lo, lo) == ""
axiom joinR1: forall a seq[string], lo int, p int, q int :: {joinR(a, lo, q), mki(p)} lo <= p && q == p + 1 ==> joinR(a, lo, q) == cat(a[p], joinR(a, lo, p))
logic combN(seq[string], seq[*Node], *Node, int, int) string
axiom combN0: forall t seq[string], m seq[*Node], r *Node, lo int :: {combN(t, m, r, lo, lo)} combN(t, m, r, lo, lo) == t[r]
axiom combN1: forall t seq[string], m seq[*Node], r *Node, lo int, p int, q int :: {combN(t, m, r, lo, q), mki(p)} lo <= p && q == p + 1 ==>
   combN(t, m, r, lo, q) == (m[p] == nil || m[p] == r ? combN(t, m, r, lo, p) : cat(combN(t, m, r, lo, p), t[m[p]]))
logic combP(seq[string], seq[*Node], *Node, int, int) string
axiom combP0: forall t seq[string], m seq[*Node], r *Node, lo int :: {combP(t, m, r, lo, lo)} combP(t, m, r, lo, lo) == t[r]
axiom combP1: forall t seq[string], m seq[*Node], r *Node, lo int, p int, q int :: {combP(t, m, r, lo, q), mki(p)} lo <= p && q == p + 1 ==>
   combP(t, m, r, lo, q) == (m[p] == nil || m[p] == r ? combP(t, m, r, lo, p) : cat(t[m[p]], combP(t, m, r, lo, p)))
lemma catl: forall a string :: {cat("", a)} cat("", a) == a
lemma catr: forall a string :: {cat(a, "")} cat(a, "") == a
lemma joinSframe by induction on hi: forall a seq[string], q int, v string, lo int, hi int :: {joinS(store(a, q, v), lo, hi)}
  0 <= lo && lo <= hi && hi <= q && mki(hi-1) ==> joinS(store(a, q, v), lo, hi) == joinS(a, lo, hi)
lemma joinRframe by induction on hi: forall a seq[string], q int, v string, lo int, hi int :: {joinR(store(a, q, v), lo, hi)}
  0 <= lo && lo <= hi && hi <= q && mki(hi-1) ==> joinR(store(a, q, v), lo, hi) == joinR(a, lo, hi)

group

extern strings.Join(list, sep) (r)
  ensures sep == "" ==> r == joinS(elems(list), off(list), off(list) + len(list))

// trusted: reversing a list in place reverses the order its texts are joined in
extern slices.Reverse(s)
  modifies E<string>
  ensures onlyArr(s)
  ensures joinS(elems(s), off(s), off(s) + len(s)) == old(joinR(elems(s), off(s), off(s) + len(s)))

func (*goast.Node).CombineNext(n, k, nns) (r)
  modifies Node.text, Node.kind, Node.next, Node.prev
  uses joins
  requires [C06,C11] links: links()
  let m = elems(nns)
  let e = off(nns) + len(nns)
  let f = firstAt(m, off(nns), e)
  let b = n == nil ? f + 1 : off(nns)
  ensures [C06,C11] links: links()
  ensures [C11] into: r == (n != nil ? n : f < e ? ref(m[f]) : nil)
  ensures [C11] text: r != nil ==> r.text == old(combN(heap(Node, text), m, r, b, e))
  ensures [C11] kind: forall x *Node :: {x.kind} x != nil ==> x.kind == (x == r ? k : old(x.kind))
  ensures [C11] others: forall x *Node :: {x.text} x != nil && x != r ==> x.text == old(x.text)
  ensures [C11] alone: forall p int :: {m[p]} r != nil && b <= p && p < e && m[p] != nil && m[p] != r ==> heap(Node, next)[m[p]] == nil && heap(Node, prev)[m[p]] == nil
  ensures [C11] unlinked-only: (forall x *Node :: {x.next} x != nil ==> x.next == old(x.next) || x.next == nil) && (forall x *Node :: {x.prev} x != nil ==> x.prev == old(x.prev) || x.prev == nil)
  safety [C09,C26]
  inv [C11] for $x *Node, $s []*Node :: arr($s) == arr(nns) && off($s) + len($s) == off(nns) + len(nns) && off($s) >= off(nns) && (n != nil ==> $x == n && off($s) == off(nns))
    && (n == nil && $x == nil ==> firstAt(elems(nns), off($s), off(nns) + len(nns)) == firstAt(elems(nns), off(nns), off(nns) + len(nns)))
    && (n == nil && $x != nil ==> off($s) - 1 == firstAt(elems(nns), off(nns), off(nns) + len(nns)) && off($s) > off(nns) && $x == ref(elems(nns)[off($s)-1]))
  inv [C11] for $i int, $b []string, $r_ *Node, $s_ []*Node :: 0 - 1 <= $i && $i < len($s_) && mki(off($b)) && mki(off($b) + len($b)) && mki(off($s_) + $i + 1)
     && joinS(elems($b), off($b), off($b) + len($b)) == old(combN(heap(Node, text), elems($s_), $r_, off($s_), off($s_) + $i + 1))
  inv [C06,C11] for $b []string :: isnew(arr($b))
  inv [C06,C11] links()
  inv [C11] for $i int, $r_ *Node, $s_ []*Node :: forall p int :: {elems(nns)[p]} $r_ != nil && off($s_) <= p && p <= off($s_) + $i && elems(nns)[p] != nil && elems(nns)[p] != $r_ ==> heap(Node, next)[elems(nns)[p]] == nil && heap(Node, prev)[elems(nns)[p]] == nil
  inv [C11] (forall x *Node :: {x.next} x != nil ==> x.next == old(x.next) || x.next == nil) && (forall x *Node :: {x.prev} x != nil ==> x.prev == old(x.prev) || x.prev == nil)

func (*goast.Node).CombinePrev(n, k, nns) (r)
  modifies Node.text, Node.kind, Node.next, Node.prev
  uses joins
  requires [C06,C11] links: links()
  let m = elems(nns)
  let e = off(nns) + len(nns)
  let f = firstAt(m, off(nns), e)
  let b = n == nil ? f + 1 : off(nns)
  ensures [C06,C11] links: links()
  ensures [C11] into: r == (n != nil ? n : f < e ? ref(m[f]) : nil)
  ensures [C11] text: r != nil ==> r.text == old(combP(heap(Node, text), m, r, b, e))
  ensures [C11] kind: forall x *Node :: {x.kind} x != nil ==> x.kind == (x == r ? k : old(x.kind))
  ensures [C11] others: forall x *Node :: {x.text} x != nil && x != r ==> x.text == old(x.text)
  ensures [C11] alone: forall p int :: {m[p]} r != nil && b <= p && p < e && m[p] != nil && m[p] != r ==> heap(Node, next)[m[p]] == nil && heap(Node, prev)[m[p]] == nil
  ensures [C11] unlinked-only: (forall x *Node :: {x.next} x != nil ==> x.next == old(x.next) || x.next == nil) && (forall x *Node :: {x.prev} x != nil ==> x.prev == old(x.prev) || x.prev == nil)
  safety [C09,C26]
  inv [C11] for $x *Node, $s []*Node :: arr($s) == arr(nns) && off($s) + len($s) == off(nns) + len(nns) && off($s) >= off(nns) && (n != nil ==> $x == n && off($s) == off(nns))
    && (n == nil && $x == nil ==> firstAt(elems(nns), off($s), off(nns) + len(nns)) == firstAt(elems(nns), off(nns), off(nns) + len(nns)))
    && (n == nil && $x != nil ==> off($s) - 1 == firstAt(elems(nns), off(nns), off(nns) + len(nns)) && off($s) > off(nns) && $x == ref(elems(nns)[off($s)-1]))
  inv [C11] for $i int, $b []string, $r_ *Node, $s_ []*Node :: 0 - 1 <= $i && $i < len($s_) && mki(off($b)) && mki(off($b) + len($b)) && mki(off($s_) + $i + 1)
     && joinR(elems($b), off($b), off($b) + len($b)) == old(combP(heap(Node, text), elems($s_), $r_, off($s_), off($s_) + $i + 1))
  inv [C06,C11] for $b []string :: isnew(arr($b))
  inv [C06,C11] links()
  inv [C11] for $i int, $r_ *Node, $s_ []*Node :: forall p int :: {elems(nns)[p]} $r_ != nil && off($s_) <= p && p <= off($s_) + $i && elems(nns)[p] != nil && elems(nns)[p] != $r_ ==> heap(Node, next)[elems(nns)[p]] == nil && heap(Node, prev)[elems(nns)[p]] == nil
  inv [C11] (forall x *Node :: {x.next} x != nil ==> x.next == old(x.next) || x.next == nil) && (forall x *Node :: {x.prev} x != nil ==> x.prev == old(x.prev) || x.prev == nil)

