package goast

import (
	"fmt"
	"testing"

	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
)

func TestVerifSearch(t *testing.T) {
	r := vRand()
	scopes := []scope.Kind{scope.Func, scope.Type, scope.Func, scope.Type, scope.Package, scope.Comment, scope.Variable, scope.Unknown, scope.Kind("x")}
	type piece struct {
		t string
		k kind.Kind
	}
	pieces := []piece{{"func", kind.Func}, {"type", kind.Type}, {" ", kind.Space}, {"\t", kind.Tab}, {"\n", kind.NewLine}, {"// c", kind.Comment}, {"=", kind.Symbol},
		{"Name", kind.FuncName}, {"Recv", kind.MethodReceiverType}, {"r", kind.MethodReceiverName}, {"T", kind.TypeName}, {"U", kind.TypeName}, {"f", kind.FuncName},
		{"struct", kind.Struct}, {"interface", kind.Interface}, {"struct", kind.Struct}, {"interface", kind.Interface}, {"[", kind.SquareBracketLeft}, {"]", kind.SquareBracketRight}, {"[", kind.SquareBracketLeft}, {"]", kind.SquareBracketRight},
		{"(", kind.ParenthesisLeft}, {")", kind.ParenthesisRight}, {"{", kind.CurlyBracketLeft}, {"}", kind.CurlyBracketRight}, {"a", kind.Raw}, {"P", kind.ParamType}, {"=", kind.Raw}, {"int", kind.Basic}}
	first := func(ps []piece, k kind.Kind) int {
		for i, p := range ps {
			if p.k == k {
				return i
			}
		}
		return -1
	}
	// what the type's name stands for: behind type parameters, blanks, comments and an equals sign
	defKind := func(ps []piece) kind.Kind {
		i := first(ps, kind.TypeName)
		if i < 0 {
			return kind.None
		}
		i++
		if i < len(ps) && ps[i].k == kind.SquareBracketLeft {
			depth := 0
			for ; i < len(ps); i++ {
				if ps[i].k == kind.SquareBracketLeft {
					depth++
				}
				if ps[i].k == kind.SquareBracketRight {
					if depth--; depth == 0 {
						break
					}
				}
			}
			i++
		}
		for ; i < len(ps); i++ {
			switch ps[i].k {
			case kind.Space, kind.Tab, kind.NewLine, kind.Comment:
				continue
			}
			if ps[i].t == "=" {
				continue
			}
			return ps[i].k
		}
		return kind.None
	}
	check := func(sk scope.Kind, sc Scope, ps []piece, nodes []*Node) string {
		is := func(want bool, k int, name string, ok bool, q string) string {
			want = want && k >= 0
			if ok != want {
				return fmt.Sprintf("%s answers %q, %v", q, name, ok)
			}
			if ok && name != ps[k].t {
				return fmt.Sprintf("%s gives %q, should be %q", q, name, ps[k].t)
			}
			return ""
		}
		fn, mr, tn := first(ps, kind.FuncName), first(ps, kind.MethodReceiverType), first(ps, kind.TypeName)
		n, ok := sc.GetFuncName()
		if s := is(sk == scope.Func, fn, n, ok, "GetFuncName"); s != "" {
			return s
		}
		n, ok = sc.GetMethodReceiver()
		if s := is(sk == scope.Func, mr, n, ok, "GetMethodReceiver"); s != "" {
			return s
		}
		n, ok = sc.GetMethodName()
		if s := is(sk == scope.Func && mr >= 0, fn, n, ok, "GetMethodName"); s != "" {
			return s
		}
		n, ok = sc.GetTypeName()
		if s := is(sk == scope.Type, tn, n, ok, "GetTypeName"); s != "" {
			return s
		}
		n, ok = sc.GetStructName()
		if s := is(sk == scope.Type && defKind(ps) == kind.Struct, tn, n, ok, "GetStructName"); s != "" {
			return s
		}
		n, ok = sc.GetInterfaceName()
		if s := is(sk == scope.Type && defKind(ps) == kind.Interface, tn, n, ok, "GetInterfaceName"); s != "" {
			return s
		}
		for i, nd := range nodes {
			if nd.Text() != ps[i].t || nd.Kind() != ps[i].k || i > 0 && (nd.Prev() != nodes[i-1] || nodes[i-1].Next() != nd) {
				return fmt.Sprintf("asking changes node %d", i)
			}
		}
		if len(nodes) > 0 && (nodes[0].Prev() != nil || nodes[len(nodes)-1].Next() != nil) {
			return "asking changes the chain"
		}
		return ""
	}
	for !vTimeUp() {
		var ps []piece
		if r.Intn(3) > 0 { // a declaration of random pieces
			for k := r.Intn(12); k > 0; k-- {
				ps = append(ps, pieces[r.Intn(len(pieces))])
			}
			if r.Intn(2) == 0 {
				ps = append([]piece{{"type", kind.Type}, {" ", kind.Space}, {"T", kind.TypeName}}, ps...)
			}
			sk := scopes[r.Intn(len(scopes))]
			if !vCase(fmt.Sprintf("scope %q of %q", string(sk), ps), func() string {
				var nodes []*Node
				var last *Node
				for _, p := range ps {
					n := NewNode(0, p.t, p.k)
					if last != nil {
						last.InsertNext(n)
					}
					nodes, last = append(nodes, n), n
				}
				var head *Node
				if len(nodes) > 0 {
					head = nodes[0]
				}
				return check(sk, NewScope(3, sk, head), ps, nodes)
			}) {
				break
			}
			continue
		}
		// what parsing makes
		text := vRandText(r)
		if !vText(text, func(text string) string {
			scs, err := ParseScope(0, []byte(text))
			if err != nil {
				return ""
			}
			for _, sc := range scs {
				var ps []piece
				var nodes []*Node
				for n := sc.Node(); n != nil && len(nodes) < 10000; n = n.Next() {
					ps, nodes = append(ps, piece{n.Text(), n.Kind()}), append(nodes, n)
				}
				if s := check(sc.Kind(), sc, ps, nodes); s != "" {
					return s
				}
			}
			return ""
		}) {
			break
		}
	}
	vDone()
}
