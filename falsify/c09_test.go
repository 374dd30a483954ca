package goast

import (
	"fmt"
	"testing"

	"github.com/yanun0323/goast/kind"
)

func TestVerifSearch(t *testing.T) {
	r := vRand()
	var z *Node
	ops := []string{"InsertNext", "InsertPrev", "ReplaceNext", "ReplacePrev", "TakeNext", "TakePrev", "RemoveNext", "RemovePrev", "Isolate", "CombineNext", "CombinePrev"}
	for !vTimeUp() {
		ok := vCase("nil", func() string {
			if z.Next() != nil || z.Prev() != nil || z.Text() != "" || z.Line() != -2 || z.Kind() != kind.None || z.Copy() != nil || z.Copy(true) != nil {
				return fmt.Sprintf("a nil node answers %v %v %q %d %q", z.Next(), z.Prev(), z.Text(), z.Line(), z.Kind())
			}
			z.SetText("x")
			z.SetKind(kind.Raw)
			z.Print()
			_ = z.Description()
			_ = z.IterNext(func(*Node) bool { return true })
			_ = z.IterPrev(func(*Node) bool { return true })
			if z.First() != nil || z.Last() != nil {
				return "a nil node has a first or last node"
			}
			return ""
		})
		if !ok {
			break
		}
		w := vNewWorld(r)
		hist := "nodes" + w.chains + ":"
		for k := 1 + r.Intn(4); k > 0 && ok; k-- {
			call, do, _, _ := w.vEdit(r, ops)
			hist += " " + call
			ok = vCase(hist, func() string { do(); return "" })
			i, n := w.pick(r)
			if !ok {
				break
			}
			hist += fmt.Sprintf(" SetText/SetKind(%d)", i)
			ok = vCase(hist, func() string {
				ts, ks := map[*Node]string{}, map[*Node]kind.Kind{}
				for _, x := range w.nodes {
					ts[x], ks[x] = x.Text(), x.Kind()
				}
				n.SetText("new")
				n.SetKind(kind.ParamType)
				for j, x := range w.nodes {
					if x == n && (x.Text() != "new" || x.Kind() != kind.ParamType) {
						return "text or kind is not set"
					}
					if x != n && (x.Text() != ts[x] || x.Kind() != ks[x]) {
						return fmt.Sprintf("text or kind of node %d changed", j)
					}
				}
				_ = n.Description()
				return ""
			})
		}
	}
	vDone()
}
