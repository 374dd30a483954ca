package goast

import (
	"errors"
	"fmt"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
)

// vPackageNode answers the node that names the package, nil when there is none.
func vPackageNode(scs []Scope) *Node {
	for _, sc := range scs {
		if sc.Kind() != scope.Package {
			continue
		}
		seen := false
		for n := sc.Node(); n != nil; n = n.Next() {
			if seen && (n.Kind() == kind.Raw || n.Kind() == kind.Basic) {
				return n
			}
			seen = seen || n.Kind() == kind.Package
		}
		return nil
	}
	return nil
}

func TestVerifSearch(t *testing.T) {
	r := vRand()
	dir := t.TempDir()
	answers := func(what string, name string, err error, want *Node) string {
		if want == nil {
			if !errors.Is(err, ErrNoPackage) || name != "" {
				return fmt.Sprintf("%s answers %q, %v without a package name", what, name, err)
			}
			return ""
		}
		if err != nil || name != want.Text() {
			return fmt.Sprintf("%s answers %q, %v, should be %q", what, name, err, want.Text())
		}
		return ""
	}
	built := func(scs []Scope) string {
		want := vPackageNode(scs)
		f, err := NewAst(scs...)
		if want == nil {
			if f != nil || !errors.Is(err, ErrNoPackage) {
				return fmt.Sprintf("NewAst answers %v, %v without a package name", f, err)
			}
			name, err := (&ast{scope: scs}).Package()
			return answers("Package", name, err, nil)
		}
		if f == nil || err != nil {
			return fmt.Sprintf("NewAst answers %v, %v, the package is %q", f, err, want.Text())
		}
		name, err := f.Package()
		return answers("Package", name, err, want)
	}
	heads := []string{"package foo\n", "package /* c */ foo\n", "package // c\n\tfoo\n", "package\tfoo // c\n", "package string\n", "package foo;\n", "package é\n", "package _x\n", "package main", "// c\n\n// d\npackage foo\n", "/* package x */ package foo\n", "/* a\n*/\npackage foo\n", "\n\n  package foo\n",
		"package foo // package bar\n", "package f1 ; var x = 1\n"}
	k := 0
	for !vTimeUp() {
		k++
		switch r.Intn(4) {
		case 0: // assembled from nodes
			var scs []Scope
			in := ""
			for j := r.Intn(4); j > 0; j-- {
				var n, head *Node
				sk := []scope.Kind{scope.Package, scope.Package, scope.Comment, scope.Variable, scope.Func, scope.Unknown}[r.Intn(6)]
				in += fmt.Sprintf(" %s:", sk)
				for l := r.Intn(6); l > 0; l-- {
					p := []string{"package", " ", "// c", "foo", "string", "12", "\n", "\"s\"", ";", "func"}[r.Intn(10)]
					in += fmt.Sprintf(" %q", p)
					m := NewNode(l, p)
					if n == nil {
						head = m
					} else {
						n.InsertNext(m)
					}
					n = m
				}
				scs = append(scs, NewScope(0, sk, head))
			}
			if !vCase("scopes"+in, func() string { return built(scs) }) {
				vDone()
				return
			}
		case 1: // parsed texts
			s := ""
			if r.Intn(2) == 0 {
				s = heads[r.Intn(len(heads))]
			}
			if !vText(s+vRandText(r), func(s string) string {
				scs, err := ParseScope(0, []byte(s))
				if err != nil {
					return fmt.Sprint("ParseScope fails: ", err)
				}
				return built(scs)
			}) {
				vDone()
				return
			}
		default: // files
			s := heads[r.Intn(len(heads))]
			if r.Intn(5) == 0 {
				s = ""
			}
			for j := r.Intn(3); j > 0; j-- {
				s += vLines[r.Intn(len(vLines))]
			}
			file := filepath.Join(dir, fmt.Sprintf("f%d.go", k%10))
			if !vText(s, func(s string) string {
				if os.WriteFile(file, []byte(s), 0o644) != nil {
					return ""
				}
				g, perr := parser.ParseFile(token.NewFileSet(), file, nil, parser.PackageClauseOnly)
				f, err := ParseAst(file)
				if err != nil {
					if errors.Is(err, ErrNoPackage) && perr == nil {
						fs := token.NewFileSet()
						text, e := format.Source([]byte(s))
						if e != nil {
							return ""
						}
						if g, e = parser.ParseFile(fs, file, text, parser.PackageClauseOnly); e != nil || fs.Position(g.Package).Column != 1 {
							return ""
						}
						return fmt.Sprintf("ParseAst finds no package, it is %q", g.Name.Name)
					}
					return ""
				}
				name, err := f.Package()
				if s := answers("Package", name, err, vPackageNode(f.Scope())); s != "" {
					return s
				}
				if vPackageNode(f.Scope()) == nil {
					return "ParseAst accepts a source without a package name"
				}
				if perr == nil && name != g.Name.Name && !strings.Contains(s, ";") {
					return fmt.Sprintf("the package is %q, should be %q", name, g.Name.Name)
				}
				return ""
			}) {
				vDone()
				return
			}
		}
	}
	vDone()
}
