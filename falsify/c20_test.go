package goast

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/yanun0323/goast/scope"
)

func TestVerifSearch(t *testing.T) {
	r := vRand()
	root := t.TempDir()
	meta := func(f Ast) string { return fmt.Sprintf("%q %q %q %q", f.File(), f.Dir(), f.Filename(), f.Ext()) }
	same := func(a, b []Scope) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	vCase("a nil source", func() string {
		var f *ast
		if f.File() != "" || f.Dir() != "" || f.Filename() != "" || f.Ext() != "" || f.Scope() != nil {
			return "answers with something"
		}
		return ""
	})
	type want struct {
		f    Ast
		scs  []Scope
		meta string
	}
	dirs := []string{".", "a", "a/b", "a.b", "c d"}
	names := []string{"x.go", "y.z.go", "x", ".go", "é.go", "a.b/x.go", "x.GO"}
	for !vTimeUp() {
		ok := true
		hist := ""
		var all []want
		pkg := NewScope(0, scope.Package, NewNodes(0, "package", " ", "foo"))
		mk := func() []Scope {
			var l []Scope
			for k := r.Intn(4); k > 0; k-- {
				l = append(l, NewScope(r.Intn(5), []scope.Kind{scope.Func, scope.Type, scope.Variable, scope.Package}[r.Intn(4)], []*Node{nil, NewNodes(1, "func", " ", "f"), NewNodes(2, "var")}[r.Intn(3)]))
			}
			return l
		}
		check := func() string {
			for i, w := range all {
				if !same(w.f.Scope(), w.scs) {
					return fmt.Sprintf("source %d has %d scopes, or others, should have its own %d", i, len(w.f.Scope()), len(w.scs))
				}
				if m := meta(w.f); m != w.meta {
					return fmt.Sprintf("source %d has the data %s, should be %s", i, m, w.meta)
				}
				stop := r.Intn(len(w.scs) + 2)
				var seen []Scope
				w.f.IterScope(func(s Scope) bool { seen = append(seen, s); return len(seen) != stop })
				n := len(w.scs)
				if stop >= 1 && stop < n {
					n = stop
				}
				if !same(seen, w.scs[:n]) {
					return fmt.Sprintf("iterating source %d until call %d makes %d calls, or others", i, stop, len(seen))
				}
			}
			return ""
		}
		if r.Intn(3) == 0 {
			d := filepath.Join(root, dirs[r.Intn(len(dirs))])
			p := filepath.Join(d, names[r.Intn(len(names))])
			if r.Intn(4) == 0 {
				p = d + "/./" + names[r.Intn(4)]
			}
			q := p
			if filepath.Ext(p) != ".go" {
				q += ".go"
			}
			_ = os.MkdirAll(filepath.Dir(q), 0o755)
			if os.WriteFile(q, []byte("package foo\n\nfunc f() {}\n"), 0o644) != nil {
				continue
			}
			hist = fmt.Sprintf("ParseAst(%q)", p)
			ok = vCase(hist, func() string {
				f, err := ParseAst(p)
				if err != nil {
					return fmt.Sprint("fails: ", err)
				}
				scs, _ := ParseScope(0, []byte("package foo\n\nfunc f() {}\n"))
				if len(scs) != len(f.Scope()) {
					return "other scopes than parsing the text gives"
				}
				all = append(all, want{f, append([]Scope{}, f.Scope()...), fmt.Sprintf("%q %q %q %q", p, filepath.Dir(p), filepath.Base(p), filepath.Ext(p))})
				return check()
			})
		} else {
			l := append([]Scope{pkg}, mk()...)
			hist = fmt.Sprintf("NewAst(%d scopes)", len(l))
			ok = vCase(hist, func() string {
				f, err := NewAst(l...)
				if err != nil {
					return fmt.Sprint("fails: ", err)
				}
				all = append(all, want{f, append([]Scope{}, l...), `"" "" "" ""`})
				return check()
			})
		}
		for k := r.Intn(6); k > 0 && ok; k-- {
			i := r.Intn(len(all))
			w := &all[i]
			switch r.Intn(3) {
			case 0:
				l := mk()
				hist += fmt.Sprintf("; %d.AppendScope(%d)", i, len(l))
				ok = vCase(hist, func() string {
					w.f.AppendScope(l...)
					w.scs = append(append([]Scope{}, w.scs...), l...)
					return check()
				})
			case 1:
				l := mk()
				switch r.Intn(3) {
				case 0:
					l = append(l, w.scs...)
				case 1:
					l = w.f.Scope()[:r.Intn(len(w.scs)+1)] // a part of the list of a source
				}
				hist += fmt.Sprintf("; %d.SetScope(%d)", i, len(l))
				ok = vCase(hist, func() string {
					g := w.f.SetScope(l)
					if g == w.f {
						return "SetScope gives the same source"
					}
					all = append(all, want{g, append([]Scope{}, l...), w.meta})
					return check()
				})
			default:
				hist += fmt.Sprintf("; %d.Copy()", i)
				ok = vCase(hist, func() string {
					before := append([]Scope{}, w.scs...)
					g := w.f.Copy()
					if g == w.f {
						return "Copy gives the same source"
					}
					if len(g.Scope()) != len(before) {
						return fmt.Sprintf("the copy has %d scopes, should have %d", len(g.Scope()), len(before))
					}
					for j, s := range g.Scope() {
						o := before[j]
						if s == o || s.Kind() != o.Kind() || s.Line() != o.Line() {
							return fmt.Sprintf("scope %d of the copy differs in kind or line, or is the same", j)
						}
						a, b := s.Node(), o.Node()
						for ; a != nil && b != nil; a, b = a.Next(), b.Next() {
							if a == b || a.Text() != b.Text() || a.Kind() != b.Kind() || a.Line() != b.Line() {
								return fmt.Sprintf("a node of scope %d of the copy differs, or is shared", j)
							}
						}
						if a != nil || b != nil {
							return fmt.Sprintf("scope %d of the copy has more or fewer nodes", j)
						}
					}
					all = append(all, want{g, append([]Scope{}, g.Scope()...), all[i].meta})
					return check()
				})
			}
		}
		if !ok {
			break
		}
	}
	vDone()
}
