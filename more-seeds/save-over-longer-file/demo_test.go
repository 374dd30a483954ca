package goast

import (
	"testing"
	"os"
	"path/filepath"
	"github.com/yanun0323/goast/scope"
)

func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "x.go")
	save := func(texts ...string) {
		f, _ := NewAst(NewScope(0, scope.Package, NewNodes(0, append([]string{"package", " ", "foo", "\n"}, texts...)...)))
		if err := f.Save(p); err != nil {
			t.Fatal(err)
		}
	}
	save("\nvar x = 1\n")
	save()
	if b, _ := os.ReadFile(p); string(b) != "package foo\n" {
		t.Fatalf("%q", b)
	}
}
