package goast

import (
	"fmt"
	"testing"

	"github.com/yanun0323/goast/kind"
)

func TestVerifSearch(t *testing.T) {
	r := vRand()
	for !vTimeUp() {
		w := vNewWorld(r)
		i, n := w.pick(r)
		var is []int
		var ns []*Node
		for k := r.Intn(6); k > 0; k-- {
			a, b := w.pick(r)
			is, ns = append(is, a), append(ns, b)
		}
		next := r.Intn(2) == 0
		k := []kind.Kind{kind.ParamType, kind.Raw, kind.None}[r.Intn(3)]
		if !vCase(fmt.Sprintf("nodes%s: %d.Combine(next=%v, %v, %v)", w.chains, i, next, k, is), func() string {
			text, kinds := map[*Node]string{}, map[*Node]kind.Kind{}
			for _, x := range w.nodes {
				text[x], kinds[x] = x.Text(), x.Kind()
			}
			before := w.links()
			recv, rest := n, ns
			for recv == nil && len(rest) > 0 {
				recv, rest = rest[0], rest[1:]
			}
			want := ""
			if recv != nil {
				want = text[recv]
			}
			for _, x := range rest {
				if x == nil || x == recv {
					continue
				}
				if next {
					want += text[x]
				} else {
					want = text[x] + want
				}
			}
			var got *Node
			if next {
				got = n.CombineNext(k, ns...)
			} else {
				got = n.CombinePrev(k, ns...)
			}
			if got != recv {
				return fmt.Sprintf("combines into node %d, should be %d", w.no(got), w.no(recv))
			}
			if recv == nil {
				return ""
			}
			if got.Text() != want || got.Kind() != k {
				return fmt.Sprintf("gives %q/%v, should be %q/%v", got.Text(), got.Kind(), want, k)
			}
			comb := map[*Node]bool{}
			for _, x := range rest {
				if x != nil && x != recv {
					comb[x] = true
					if x.Next() != nil || x.Prev() != nil {
						return fmt.Sprintf("combined node %d still has neighbours", w.no(x))
					}
				}
			}
			for _, x := range w.nodes {
				if x != recv && (x.Text() != text[x] || x.Kind() != kinds[x]) {
					return fmt.Sprintf("text or kind of node %d changed", w.no(x))
				}
			}
			after := w.links()
			for k := range after.next {
				if after.next[k] != before.next[k] && after.next[k] != -1 || after.prev[k] != before.prev[k] && after.prev[k] != -1 {
					return fmt.Sprintf("node %d got a new neighbour", k)
				}
			}
			return after.wrong()
		}) {
			break
		}
	}
	vDone()
}
