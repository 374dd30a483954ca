package goast

import (
	"fmt"
	"testing"

	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
)

func TestVerifSearch(t *testing.T) {
	r := vRand()
	pairs := map[kind.Kind]kind.Kind{}
	for _, p := range [][2]kind.Kind{{{"(", "ParenthesisLeft"}, {")", "ParenthesisRight"}}, {{"{", "CurlyBracketLeft"}, {"}", "CurlyBracketRight"}}, {{"[", "SquareBracketLeft"}, {"]", "SquareBracketRight"}}} {
		pairs[p[0]], pairs[p[1]] = p[1], p[0]
	}
	names := map[scope.Kind]string{"": "Unknown", "package": "Package", "//": "Comment", "/*": "InnerComment", "import": "Import", "var": "Variable", "const": "Const", "type": "Type", "func": "Func"}
	kinds := map[scope.Kind]kind.Kind{"": {"", "Raw"}, "package": {"package", "Package"}, "//": {"", "Comment"}, "/*": {"", "Comment"}, "import": {"import", "Import"}, "var": {"var", "Var"},
		"const": {"const", "Const"}, "type": {"type", "Type"}, "func": {"func", "Func"}}
	a := []string{"", "(", ")", "{", "}", "[", "]", "x", "import", "\t", " ", "*", "&", "func"}
	b := []string{"", "ParenthesisLeft", "ParenthesisRight", "CurlyBracketLeft", "CurlyBracketRight", "SquareBracketLeft", "SquareBracketRight", "Raw", "Comment", "Symbol", "Import", "Tab", "Func"}
	sc := []string{"", "package", "//", "/*", "import", "var", "const", "type", "func", "/", "*/", "Package", "x", "vars", "types", " ", "struct"}
	for !vTimeUp() {
		k := kind.Kind{a[r.Intn(len(a))], b[r.Intn(len(b))]}
		s := scope.Kind(sc[r.Intn(len(sc))])
		if !vCase(fmt.Sprintf("kind %q, scope kind %q", k, s), func() string {
			c, ok := k.GetClose()
			w, wok := pairs[k]
			if c != w || ok != wok {
				return fmt.Sprintf("GetClose gives %q %v, should be %q %v", c, ok, w, wok)
			}
			if k.String() != k[1] {
				return "String of the kind gives " + k.String()
			}
			if s.String() != names[s] {
				return fmt.Sprintf("String of the scope kind gives %q, should be %q", s.String(), names[s])
			}
			if s.ToKind() != kinds[s] {
				return fmt.Sprintf("ToKind gives %q, should be %q", s.ToKind(), kinds[s])
			}
			return ""
		}) {
			break
		}
	}
	vDone()
}
