package goast

import (
	"fmt"
	"testing"
)

func TestVerifSearch(t *testing.T) {
	r := vRand()
	for !vTimeUp() {
		w := vNewWorld(r)
		hist := "nodes" + w.chains + ":"
		if r.Intn(2) == 0 {
			call, do, _, _ := w.vEdit(r, []string{"InsertNext", "InsertPrev", "TakeNext", "RemoveNext"})
			do()
			hist += " " + call
		}
		i, n := w.pick(r)
		stop := r.Intn(8)
		for _, fwd := range []bool{true, false} {
			ok := vCase(fmt.Sprintf("%s %d.Iter(forward=%v), callback answers false at call %d", hist, i, fwd, stop), func() string {
				l := w.links()
				step := func(k int) int {
					if fwd {
						return l.nx(k)
					}
					return l.pv(k)
				}
				var want, got []int
				wantRet := -1
				for k := i; k >= 0; k = step(k) {
					want = append(want, k)
					if len(want)-1 == stop {
						wantRet = k
						break
					}
				}
				f := func(x *Node) bool {
					got = append(got, w.no(x))
					if len(got) > 100 {
						panic("the iteration does not stop")
					}
					return len(got)-1 != stop
				}
				var ret *Node
				if fwd {
					ret = n.IterNext(f)
				} else {
					ret = n.IterPrev(f)
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					return fmt.Sprintf("visits %v, should visit %v", got, want)
				}
				if w.no(ret) != wantRet {
					return fmt.Sprintf("returns %d, should return %d", w.no(ret), wantRet)
				}
				if s := w.links().diff(l); s != "" {
					return "iteration changed links: " + s
				}
				first, last := i, i
				for l.pv(first) >= 0 {
					first = l.pv(first)
				}
				for l.nx(last) >= 0 {
					last = l.nx(last)
				}
				if w.no(n.First()) != first || w.no(n.Last()) != last {
					return fmt.Sprintf("first and last are %d and %d, should be %d and %d", w.no(n.First()), w.no(n.Last()), first, last)
				}
				return ""
			})
			if !ok {
				vDone()
				return
			}
		}
	}
	vDone()
}
