package goast

import (
	"fmt"
	"strings"
	"testing"

	"github.com/yanun0323/goast/kind"
)

func TestVerifSearch(t *testing.T) {
	r := vRand()
	for !vTimeUp() {
		var ts []string
		for k := r.Intn(7); k > 0; k-- {
			ts = append(ts, []string{"a", "", "\n", "x\ny", "`\n\n\n`", "func", "12", "(", "\r", "string", "\"s\"", "+"}[r.Intn(12)])
		}
		line := r.Intn(5) - 1
		if !vCase(fmt.Sprintf("NewNodes(%d, %q)", line, ts), func() string {
			n := NewNodes(line, ts...)
			var prev *Node
			l := line
			for i, s := range ts {
				if n == nil {
					return fmt.Sprintf("no node for text %d", i)
				}
				if n.Prev() != prev {
					return fmt.Sprintf("prev of node %d is wrong", i)
				}
				if n.Text() != s || n.Line() != l || n.Kind() != kind.New(s) {
					return fmt.Sprintf("node %d is %q line %d kind %v, should be %q line %d kind %v", i, n.Text(), n.Line(), n.Kind(), s, l, kind.New(s))
				}
				l += strings.Count(s, "\n")
				prev, n = n, n.Next()
			}
			if n != nil {
				return "there is a node too many"
			}
			s := ts
			if len(s) > 0 {
				for _, ks := range [][]kind.Kind{nil, {kind.ParamType}, {kind.None, kind.Raw}} {
					m := NewNode(line, s[0], ks...)
					k := kind.New(s[0])
					if len(ks) > 0 {
						k = ks[0]
					}
					if m.Next() != nil || m.Prev() != nil || m.Text() != s[0] || m.Line() != line || m.Kind() != k {
						return fmt.Sprintf("NewNode(%d, %q, %v) is wrong", line, s[0], ks)
					}
				}
			}
			return ""
		}) {
			break
		}
	}
	vDone()
}
