package goast

import (
	"fmt"
	"strings"
	"testing"

	"github.com/yanun0323/goast/helper"
)

func TestVerifSearch(t *testing.T) {
	r := vRand()
	word := func() string {
		b := []byte{}
		for n := r.Intn(6); n > 0; n-- {
			b = append(b, "ab\x00\xc3\xa9"[r.Intn(5)])
		}
		return string(b)
	}
	for !vTimeUp() {
		s, p := word(), word()
		switch r.Intn(4) {
		case 0:
			s = p + s
		case 1:
			s = s + p
		}
		if len(p) > 0 && r.Intn(3) == 0 {
			k := r.Intn(len(p))
			p = p[:k] + "z" + p[k+1:]
		}
		if !vCase(fmt.Sprintf("HasPrefix/HasSuffix(%q, %q)", s, p), func() string {
			if g, w := helper.HasPrefix([]byte(s), p), strings.HasPrefix(s, p); g != w {
				return fmt.Sprintf("HasPrefix gives %v", g)
			}
			if g, w := helper.HasSuffix([]byte(s), p), strings.HasSuffix(s, p); g != w {
				return fmt.Sprintf("HasSuffix gives %v", g)
			}
			return ""
		}) {
			break
		}
		var a, b []int
		for n := r.Intn(4); n > 0; n-- {
			a = append(a, r.Intn(3))
		}
		for n := r.Intn(4); n > 0; n-- {
			b = append(b, r.Intn(3))
		}
		if r.Intn(2) == 0 {
			a = append(make([]int, 0, 8), a...)
		}
		if !vCase(fmt.Sprintf("AppendUnrepeatable(%v, %v)", a, b), func() string {
			a0 := append([]int{}, a...)
			w := append([]int{}, a...)
			if len(a) > 0 && len(b) > 0 && a[len(a)-1] == b[0] {
				w = append(w, b[1:]...)
			} else {
				w = append(w, b...)
			}
			g := helper.AppendUnrepeatable(a, b...)
			if fmt.Sprint(g) != fmt.Sprint(w) {
				return fmt.Sprintf("gives %v, should be %v", g, w)
			}
			if fmt.Sprint(a) != fmt.Sprint(a0) {
				return "changes its argument"
			}
			return ""
		}) {
			break
		}
	}
	vDone()
}
