// scope: name queries
group kinds
// the first node at or after x that has kind k
logic fk(seq[*Node], seq[kind.Kind], *Node, kind.Kind) *Node
axiom fk: forall N seq[*Node], K seq[kind.Kind], x *Node, k kind.Kind :: {fk(N, K, x, k)} fk(N, K, x, k) == (x == nil ? nil : K[x] == k ? x : fk(N, K, ref(N[x]), k))
// the node that closes the bracket opened c levels before x
logic nest(seq[*Node], seq[kind.Kind], *Node, kind.Kind, kind.Kind, int) *Node
axiom nest: forall N seq[*Node], K seq[kind.Kind], x *Node, l kind.Kind, r kind.Kind, c int :: {nest(N, K, x, l, r, c)}
   nest(N, K, x, l, r, c) == (x == nil ? nil : K[x] == l ? nest(N, K, ref(N[x]), l, r, c + 1) : K[x] == r ? (c == 1 ? x : nest(N, K, ref(N[x]), l, r, c - 1)) : nest(N, K, ref(N[x]), l, r, c))
// the first node at or after x that is no blank, comment or equals sign
pure blank(k kind.Kind, t string) = k == kind.Space || k == kind.Tab || k == kind.NewLine || k == kind.Comment || t == "="
logic solid(seq[*Node], seq[kind.Kind], seq[string], *Node) *Node
axiom solid: forall N seq[*Node], K seq[kind.Kind], T seq[string], x *Node :: {solid(N, K, T, x)} solid(N, K, T, x) == (x == nil ? nil : blank(K[x], T[x]) ? solid(N, K, T, ref(N[x])) : x)
group

pure first(x *Node, k kind.Kind) = fk(heap(Node, next), heap(Node, kind), x, k)
pure close(x *Node, l kind.Kind, r kind.Kind, c int) = nest(heap(Node, next), heap(Node, kind), x, l, r, c)
pure solidAt(x *Node) = solid(heap(Node, next), heap(Node, kind), heap(Node, text), x)
// what the type name of a declaration stands for begins here
pure afterName(n *Node) = n != nil && n.kind == kind.SquareBracketLeft ? nx(close(nx(n), kind.SquareBracketLeft, kind.SquareBracketRight, 1)) : n
pure definition(x *Node) = solidAt(afterName(nx(first(x, kind.TypeName))))
pure kindAt(x *Node) = x == nil ? kind("", "") : x.kind

func (*goast.Node).skipNestNext(n, nestLeft, nestRight, hooks) (r)
  uses kinds
  modifies nothing
  requires [C23] no-hooks: len(hooks) == 0 && nestLeft != nestRight
  ensures [C23] closing: r == close(n != nil && n.kind == nestLeft ? n.next : n, nestLeft, nestRight, 1)
  inv [C23] for $x *Node :: $x == entry($x)
  inv [C23] for $x *Node, $c int :: close($x, nestLeft, nestRight, $c) == close(entry($x), nestLeft, nestRight, 1)
  safety [C23]

func (*goast.scopeStruct).GetFuncName(d) (name, ok)
  uses kinds
  modifies nothing
  ensures [C23] found: ok <==> d != nil && d.kind == "func" && first(d.node, kind.FuncName) != nil
  ensures [C23] name: ok ==> name == first(d.node, kind.FuncName).text
  safety [C23]
  inv [C23] for $x *Node :: first($x, kind.FuncName) == first(d.node, kind.FuncName)
  inv [C23] for $f bool :: !$f

func (*goast.scopeStruct).GetTypeName(d) (name, ok)
  uses kinds
  modifies nothing
  ensures [C23] found: ok <==> d != nil && d.kind == "type" && first(d.node, kind.TypeName) != nil
  ensures [C23] name: ok ==> name == first(d.node, kind.TypeName).text
  safety [C23]
  inv [C23] for $x *Node :: first($x, kind.TypeName) == first(d.node, kind.TypeName)
  inv [C23] for $f bool :: !$f

func (*goast.scopeStruct).GetMethodReceiver(d) (name, ok)
  uses kinds
  modifies nothing
  ensures [C23] found: ok <==> d != nil && d.kind == "func" && first(d.node, kind.MethodReceiverType) != nil
  ensures [C23] name: ok ==> name == first(d.node, kind.MethodReceiverType).text
  safety [C23]
  inv [C23] for $x *Node :: first($x, kind.MethodReceiverType) == first(d.node, kind.MethodReceiverType)
  inv [C23] for $f bool :: !$f

func (*goast.scopeStruct).GetMethodName(d) (name, ok)
  uses kinds
  modifies nothing
  ensures [C23] found: ok <==> d != nil && d.kind == "func" && first(d.node, kind.MethodReceiverType) != nil && first(d.node, kind.FuncName) != nil
  ensures [C23] name: ok ==> name == first(d.node, kind.FuncName).text
  safety [C23]
  inv [C23] for $x *Node :: first($x, kind.FuncName) == first(d.node, kind.FuncName)
  inv [C23] for $x *Node :: first($x, kind.MethodReceiverType) == first(d.node, kind.MethodReceiverType)
  inv [C23] for $f bool :: !$f

func (*goast.scopeStruct).typeDefinition(d) (r)
  uses kinds
  modifies nothing
  requires [C23] d != nil
  ensures [C23] definition: r == definition(d.node)
  safety [C23]
  inv [C23] for $x *Node :: first($x, kind.TypeName) == first(d.node, kind.TypeName)
  inv [C23] for $x *Node :: solidAt($x) == solidAt(entry($x))

func (*goast.scopeStruct).GetStructName(d) (name, ok)
  uses kinds
  modifies nothing
  ensures [C23] found: ok <==> d != nil && d.kind == "type" && kindAt(definition(d.node)) == kind.Struct
  ensures [C23] name: ok ==> first(d.node, kind.TypeName) != nil && name == first(d.node, kind.TypeName).text
  safety [C23]

func (*goast.scopeStruct).GetInterfaceName(d) (name, ok)
  uses kinds
  modifies nothing
  ensures [C23] found: ok <==> d != nil && d.kind == "type" && kindAt(definition(d.node)) == kind.Interface
  ensures [C23] name: ok ==> first(d.node, kind.TypeName) != nil && name == first(d.node, kind.TypeName).text
  safety [C23]
