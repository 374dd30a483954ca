package goast

import (
	"fmt"
	"testing"
)

func TestVerifSearch(t *testing.T) {
	r := vRand()
	for !vTimeUp() {
		start := r.Intn(4)
		vText(vRandText(r), func(s string) string {
			n, err := extract([]byte(s))
			if err != nil {
				return "error " + err.Error()
			}
			pos := 0
			for i := 0; n != nil; i++ {
				want := 0
				for _, c := range []byte(s)[:min(pos, len(s))] {
					if c == '\n' {
						want++
					}
				}
				if n.Line() != want {
					return fmt.Sprintf("node %d, %q, has the line %d, should be %d", i, n.Text(), n.Line(), want)
				}
				pos += len(n.Text())
				n = n.Next()
			}
			scs, err := ParseScope(start, []byte(s))
			if err != nil {
				return "error " + err.Error()
			}
			line := -1
			for i, sc := range scs {
				n := sc.Node()
				if sc.Line() != n.Line()+1 {
					return fmt.Sprintf("scope %d has the line %d, should be %d", i, sc.Line(), n.Line()+1)
				}
				if line < 0 {
					for _, w := range vScopes(start, s)[:1] {
						line = w.line
					}
				}
				for ; n != nil; n = n.Next() {
					if n.Line() != line {
						return fmt.Sprintf("start line %d: node %q of scope %d has the line %d, should be %d", start, n.Text(), i, n.Line(), line)
					}
					for _, c := range []byte(n.Text()) {
						if c == '\n' {
							line++
						}
					}
				}
			}
			return ""
		})
	}
	vDone()
}
