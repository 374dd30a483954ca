package goast

import (
	"fmt"
	"testing"
)

func TestVerifSearch(t *testing.T) {
	r := vRand()
	word := func() string {
		b := []byte{}
		for n := r.Intn(6); n > 0; n-- {
			b = append(b, "ab\x00\xc3\xa9\xff"[r.Intn(6)])
		}
		return string(b)
	}
	rev := func(s string) string {
		b := []byte(s)
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		return string(b)
	}
	for !vTimeUp() {
		set := map[string]int{}
		for n := r.Intn(4); n > 0; n-- {
			set[word()] = r.Intn(5)
		}
		type add struct {
			s string
			v int
		}
		var adds []add
		for n := r.Intn(5); n > 0; n-- {
			adds = append(adds, add{word(), r.Intn(5)})
		}
		hist := fmt.Sprintf("newTrie(%q)", set)
		for _, a := range adds {
			hist += fmt.Sprintf(" AddText(%q, %d)", a.s, a.v)
		}
		probe := []string{""}
		for k := range set {
			probe = append(probe, k)
		}
		for _, a := range adds {
			probe = append(probe, a.s)
		}
		for n := 0; n < 6; n++ {
			w := word()
			probe = append(probe, w)
			if p := probe[r.Intn(len(probe))]; len(p) > 0 {
				probe = append(probe, p[:r.Intn(len(p))], p+w)
			}
		}
		if !vCase(hist, func() string {
			ref, keys := map[string]int{}, []string{}
			for k, v := range set {
				ref[k] = v
				keys = append(keys, k)
			}
			root := newTrie(set)
			check := func(when string) string {
				for _, p := range probe {
					v, ok := ref[p], p == ""
					for _, k := range keys {
						ok = ok || len(p) <= len(k) && k[:len(p)] == p
					}
					if g, o := root.FindText(p); g != v || o != ok {
						return fmt.Sprintf("%s: FindText(%q) gives %v, %v, should be %v, %v", when, p, g, o, v, ok)
					}
					if g, o := root.FindByte([]byte(p)); g != v || o != ok {
						return fmt.Sprintf("%s: FindByte(%q) gives %v, %v, should be %v, %v", when, p, g, o, v, ok)
					}
					if g, o := root.FindTextReversely(rev(p)); g != v || o != ok {
						return fmt.Sprintf("%s: FindTextReversely(%q) gives %v, %v, should be %v, %v", when, rev(p), g, o, v, ok)
					}
					if g, o := root.FindByteReversely([]byte(rev(p))); g != v || o != ok {
						return fmt.Sprintf("%s: FindByteReversely(%q) gives %v, %v, should be %v, %v", when, rev(p), g, o, v, ok)
					}
				}
				return ""
			}
			if s := check("at first"); s != "" {
				return s
			}
			for i, a := range adds {
				n := root.AddText(a.s, a.v)
				ref[a.s] = a.v
				keys = append(keys, a.s)
				if n == nil || n.Value() != a.v {
					return fmt.Sprintf("AddText(%q, %d) returns a node without the value", a.s, a.v)
				}
				if s := check(fmt.Sprintf("after addition %d", i+1)); s != "" {
					return s
				}
			}
			return ""
		}) {
			break
		}
	}
	vDone()
}
