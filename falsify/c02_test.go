package goast

import (
	"fmt"
	"testing"
)

func TestVerifSearch(t *testing.T) {
	r := vRand()
	for !vTimeUp() {
		vText(vRandText(r), func(s string) string {
			n, err := extract([]byte(s))
			if err != nil {
				return "error " + err.Error()
			}
			i := 0
			for _, p := range vPieces(0, s) {
				if n == nil {
					return fmt.Sprintf("no node %d, should be %q", i, s[p.lo:p.hi])
				}
				if n.Text() != s[p.lo:p.hi] {
					return fmt.Sprintf("node %d is %q, should be %q", i, n.Text(), s[p.lo:p.hi])
				}
				if n.Kind() != p.kind {
					return fmt.Sprintf("node %d, %q, has the kind %q, should be %q", i, n.Text(), n.Kind(), p.kind)
				}
				n, i = n.Next(), i+1
			}
			if n != nil {
				return fmt.Sprintf("node %d, %q, is none of the text", i, n.Text())
			}
			return ""
		})
	}
	vDone()
}
