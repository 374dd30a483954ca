package goast

import (
	"fmt"
	"strings"
	"testing"

	"github.com/yanun0323/goast/charset"
)

func TestVerifSearch(t *testing.T) {
	r := vRand()
	vCase("predefined sets", func() string {
		for b := 0; b < 256; b++ {
			c := byte(b)
			for _, x := range []struct {
				n string
				s charset.Set[byte]
				m string
			}{{"SeparatorCharset", charset.SeparatorCharset, " []() {},:;\n\t\r"}, {"NumberCharset", charset.NumberCharset, "0123456789"}, {"GolangSymbol", charset.GolangSymbol, "+&=!()-|<[]*^>{}/:,;%.~_"}} {
				if x.s.Contain(c) != (strings.IndexByte(x.m, c) >= 0) {
					return fmt.Sprintf("%s answers %v for %q", x.n, x.s.Contain(c), c)
				}
			}
		}
		kw := strings.Fields("break default func interface select case defer go map struct chan else goto package switch const fallthrough if range type continue for import return var")
		bt := strings.Fields("bool string byte rune int uint int8 uint8 int16 uint16 int32 uint32 int64 uint64 uintptr float32 float64 complex64 complex128")
		for i, l := range [][]string{kw, bt} {
			s := []charset.Set[string]{charset.GolangKeywords, charset.GolangBasicType}[i]
			if len(s) != len(l) {
				return fmt.Sprintf("the keyword or basic type set has %d members, should have %d", len(s), len(l))
			}
			for _, w := range l {
				if !s.Contain(w) {
					return fmt.Sprintf("%q is missing", w)
				}
			}
		}
		return ""
	})
	for !vTimeUp() {
		var lists [][]int
		var flat []int
		for n := r.Intn(4); n > 0; n-- {
			var l []int
			for k := r.Intn(4); k > 0; k-- {
				l = append(l, r.Intn(6))
			}
			lists, flat = append(lists, l), append(flat, l...)
		}
		if !vCase(fmt.Sprintf("lists %v", lists), func() string {
			in := map[int]bool{}
			for _, x := range flat {
				in[x] = true
			}
			a, b := charset.New(flat...), charset.NewSlice(lists...)
			var z charset.Set[int]
			for x := -1; x < 8; x++ {
				if a.Contain(x) != in[x] || b.Contain(x) != in[x] || z.Contain(x) {
					return fmt.Sprintf("Contain(%d) is %v for New, %v for NewSlice, %v for nil, should be %v", x, a.Contain(x), b.Contain(x), z.Contain(x), in[x])
				}
			}
			return ""
		}) {
			break
		}
	}
	vDone()
}
