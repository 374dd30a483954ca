package goast

import (
	"testing"
	"os"
	"path/filepath"
	"github.com/yanun0323/goast/scope"
)

func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "x.go")
	if os.Symlink("/dev/full", p) != nil {
		t.Skip()
	}
	f, _ := NewAst(NewScope(0, scope.Package, NewNodes(0, "package", " ", "foo", "\n")))
	if err := f.Save(p); err == nil {
		t.Fatal("no error")
	}
}
