package goast

import (
	"testing"
)

func TestDemo(t *testing.T) {
	for _, text := range []string{"func f() int {\n}\n", "func f()  int {\n}\n"} {
		scs, err := ParseScope(0, []byte(text))
		if err != nil || len(scs) != 1 {
			t.Fatal(err, len(scs))
		}
		s := ""
		scs[0].Node().IterNext(func(n *Node) bool { s += n.Text(); return true })
		if s != text {
			t.Fatalf("%q", s)
		}
	}
}
