package goast

import (
	"testing"
)

func TestDemo(t *testing.T) {
	n, _ := extract([]byte("a\n\rb"))
	if l := n.Last().Line(); l != 1 {
		t.Fatal(l)
	}
}
