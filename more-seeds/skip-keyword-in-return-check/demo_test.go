package goast

import (
	"testing"
)

func TestDemo(t *testing.T) {
	n, _ := extract([]byte("`a\\`,b`"))
	if n.Text() != "`a\\`" {
		t.Fatalf("%q", n.Text())
	}
}
