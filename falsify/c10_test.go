package goast

import (
	"fmt"
	"testing"
)

func TestVerifSearch(t *testing.T) {
	r := vRand()
	ops := []string{"InsertNext", "InsertPrev", "TakeNext", "RemovePrev", "Isolate"}
	for !vTimeUp() {
		w := vNewWorld(r)
		hist := "nodes" + w.chains + ":"
		for k := r.Intn(3); k > 0; k-- {
			call, do, _, _ := w.vEdit(r, ops)
			hist += " " + call
			if !vCase(hist, func() string { do(); return "" }) {
				vDone()
				return
			}
		}
		i, n := w.pick(r)
		for _, deep := range [][]bool{nil, {false}, {true}, {true, false}, {false, true}} {
			if !vCase(fmt.Sprintf("%s %d.Copy(%v)", hist, i, deep), func() string { return vCopyWrong(w, n, deep) }) {
				vDone()
				return
			}
		}
	}
	vDone()
}

func vCopyWrong(w *vWorld, n *Node, deep []bool) string {
	before := w.links()
	data := func() string {
		s := ""
		for _, x := range w.nodes {
			s += fmt.Sprintf("%q %v %d;", x.Text(), x.Kind(), x.Line())
		}
		return s
	}
	d0 := data()
	c := n.Copy(deep...)
	if s := w.links().diff(before); s != "" {
		return "the original changed: " + s
	}
	if data() != d0 {
		return "a text, kind or line of the original changed"
	}
	if n == nil {
		if c != nil {
			return "copy of nil is not nil"
		}
		return ""
	}
	same := func(a, b *Node) string {
		if w.no(b) != -2 {
			return "the copy shares or lacks a node"
		}
		if a.Text() != b.Text() || a.Kind() != b.Kind() || a.Line() != b.Line() {
			return fmt.Sprintf("copy of %q/%v/%d is %q/%v/%d", a.Text(), a.Kind(), a.Line(), b.Text(), b.Kind(), b.Line())
		}
		return ""
	}
	if s := same(n, c); s != "" {
		return s
	}
	if len(deep) == 0 || !deep[0] {
		if c.Next() != nil || c.Prev() != nil {
			return "a single copy has neighbours"
		}
		return ""
	}
	a, b := n, c
	for a.Next() != nil {
		if b.Next() == nil {
			return "the copied chain is too short"
		}
		if b.Next().Prev() != b {
			return "links of the copy are not mutual"
		}
		a, b = a.Next(), b.Next()
		if s := same(a, b); s != "" {
			return s
		}
	}
	if b.Next() != nil {
		return "the copied chain is too long"
	}
	a, b = n, c
	for a.Prev() != nil {
		if b.Prev() == nil {
			return "the copied chain is too short before the node"
		}
		if b.Prev().Next() != b {
			return "links of the copy are not mutual"
		}
		a, b = a.Prev(), b.Prev()
		if s := same(a, b); s != "" {
			return s
		}
	}
	if b.Prev() != nil {
		return "the copied chain is too long before the node"
	}
	return ""
}
