// refining the kinds of a chain of nodes
// the chains in question are made of the objects from wfBase on
ghostvar wfBase int
// the text from a node to the end of its chain
ghostfield Node.tail string
ghostfield Node.next fresh [C01,C05,C22]
ghostfield Node.prev fresh [C01,C05,C22]

group text
axiom catnil: forall a string :: {cat(a, "")} cat(a, "") == a
axiom catcat: forall a string, b string, c string :: {cat(cat(a, b), c)} cat(cat(a, b), c) == cat(a, cat(b, c))
group

// links lead neither into the chains nor out of them; in them they are mutual and go upwards
pure apart() = (forall x *Node :: {x.next} x != nil && x.next != nil ==> (int(x) >= wfBase <==> int(x.next) >= wfBase))
  && (forall x *Node :: {x.prev} x != nil && x.prev != nil ==> (int(x) >= wfBase <==> int(x.prev) >= wfBase))
pure mutual() = (forall x *Node :: {x.next} x != nil && x.next != nil && int(x) >= wfBase ==> x.next.prev == x && x.num < x.next.num)
  && (forall x *Node :: {x.prev} x != nil && x.prev != nil && int(x) >= wfBase ==> x.prev.next == x)
pure tails() = forall x *Node :: {x.text, x.tail} x != nil && int(x) >= wfBase ==> x.tail == (x.next == nil ? x.text : cat(x.text, x.next.tail))
pure wf() = wfBase > 0 && apart() && mutual() && tails()
// a chain has its head, and from there on its text, as before
pure refined() = forall x *Node :: {x.prev} x != nil && int(x) >= wfBase && old(x.prev) == nil ==> x.prev == nil && x.tail == old(x.tail)
pure sameLines() = forall x *Node :: {x.line} isold(x) ==> x.line == old(x.line)

// hooks of the kind resetters: a name query gives none
functype [C01,C05,C22,C23] func(*goast.Node) (x) ()
  option [C23] pure
  requires [C23] none: false
  modifies [C01,C05,C22] Node.kind, E<*goast.Node>
  ensures [C01,C05,C22] links: (forall x *Node :: {x.next} x.next == old(x.next)) && (forall x *Node :: {x.prev} x.prev == old(x.prev))

func helper.DebugPrint(args)
  option [C01,C05,C22] havoc

func (*goast.Node).debugText(n, count) (r)
  option [C01,C05,C22] havoc

default [C01,C05,C22] goast recursive taking []func(*goast.Node)
  uses text
  option [C01,C05,C22] noframes
  modifies [C01,C05,C22] heaps, Node.tail, -E<goast.Scope>, -scopeStruct.kind, -scopeStruct.line, -scopeStruct.node
  requires [C01,C05,C22] wf: wf()
  ensures [C01,C05,C22] wf: wf()
  ensures [C01,C05,C22] refined: refined()
  ensures [C01,C05,C22] lines: sameLines()
  inv [C01,C05,C22] wfBase > 0 && apart()
  inv [C01,C05,C22] mutual()
  inv [C01,C05,C22] tails()
  inv [C01,C05,C22] refined()
  inv [C01,C05,C22] sameLines()

func goast.resetKind(n) (r)
  option [C03,C19,C20,C21] havoc
  uses text
  option [C01,C05,C22] noframes
  modifies [C01,C05,C22] heaps, Node.tail, -E<goast.Scope>, -scopeStruct.kind, -scopeStruct.line, -scopeStruct.node
  requires [C01,C05,C22] wf: wf()
  ensures [C01,C05,C22] wf: wf()
  ensures [C01,C05,C22] refined: refined()
  ensures [C01,C05,C22] lines: sameLines()
  inv [C01,C05,C22] wfBase > 0 && apart()
  inv [C01,C05,C22] mutual()
  inv [C01,C05,C22] tails()
  inv [C01,C05,C22] refined()
  inv [C01,C05,C22] sameLines()

func goast.combineAdjacent(k, collected)
  uses text
  option [C01,C05,C22] noframes
  modifies [C01,C05,C22] heaps, Node.tail, -E<goast.Scope>, -scopeStruct.kind, -scopeStruct.line, -scopeStruct.node
  requires [C01,C05,C22] wf: wf()
  ensures [C01,C05,C22] wf: wf()
  ensures [C01,C05,C22] refined: refined()
  ensures [C01,C05,C22] lines: sameLines()
  inv [C01,C05,C22] wfBase > 0 && apart()
  inv [C01,C05,C22] mutual()
  inv [C01,C05,C22] tails()
  inv [C01,C05,C22] refined()
  inv [C01,C05,C22] sameLines()
  inv [C01,C05,C22] for $x *Node, $h_ *Node :: $x == nx($h_)
