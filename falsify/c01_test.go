package goast

import (
	"fmt"
	"testing"
)

func TestVerifSearch(t *testing.T) {
	r := vRand()
	for !vTimeUp() {
		start := r.Intn(3)
		vText(vRandText(r), func(s string) string {
			scs, err := ParseScope(start, []byte(s))
			if err != nil {
				return "error " + err.Error()
			}
			got := ""
			for _, sc := range scs {
				k := 0
				for n := sc.Node(); n != nil; n = n.Next() {
					got += n.Text()
					if k++; k > len(s)+10 {
						return "a chain without end"
					}
				}
			}
			want := ""
			if w := vScopes(start, s); len(w) > 0 {
				want = s[w[0].lo:]
			}
			if got != want {
				return fmt.Sprintf("the nodes make %q, should be %q", got, want)
			}
			return ""
		})
	}
	vDone()
}
