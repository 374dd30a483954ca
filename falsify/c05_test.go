package goast

import (
	"fmt"
	"testing"
)

func TestVerifSearch(t *testing.T) {
	r := vRand()
	for !vTimeUp() {
		start := r.Intn(3)
		vText(vRandText(r), func(s string) string {
			scs, err := ParseScope(start, []byte(s))
			if err != nil {
				return "error " + err.Error()
			}
			want := vScopes(start, s)
			if len(scs) != len(want) {
				return fmt.Sprintf("start line %d: %d scopes, should be %d", start, len(scs), len(want))
			}
			seen := map[*Node]bool{}
			for i, sc := range scs {
				w := want[i]
				if string(sc.Kind()) != w.kind {
					return fmt.Sprintf("scope %d has the kind %q, should be %q", i, string(sc.Kind()), w.kind)
				}
				if sc.Node() == nil || sc.Node().Prev() != nil {
					return fmt.Sprintf("scope %d does not begin a chain", i)
				}
				got := ""
				for n := sc.Node(); n != nil; n = n.Next() {
					if seen[n] {
						return fmt.Sprintf("scope %d: node %q comes twice", i, n.Text())
					}
					seen[n] = true
					got += n.Text()
				}
				if got != s[w.lo:w.hi] {
					return fmt.Sprintf("scope %d has the text %q, should be %q", i, got, s[w.lo:w.hi])
				}
			}
			return ""
		})
	}
	vDone()
}
