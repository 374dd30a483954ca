package goast

import (
	"fmt"
	"strings"
	"testing"

	"github.com/yanun0323/goast/kind"
)

func TestVerifSearch(t *testing.T) {
	r := vRand()
	check := func(s string) bool {
		return vText(s, func(s string) string {
			if g, w := kind.New(s), vKindOf(s); g != w {
				return fmt.Sprintf("kind.New gives %q, should be %q", g, w)
			}
			return ""
		})
	}
	words := strings.Fields("break default select case defer go else goto switch fallthrough if range continue for return bool string byte rune int uint int8 uint8 int16 uint16 int32 uint32 int64 uint64 uintptr float32 float64 complex64 complex128 import var const map chan func type struct interface package any error iota nil true false")
	ok := check("")
	for a := 0; a < 256 && ok; a++ {
		ok = check(string([]byte{byte(a)}))
		for b := 0; b < 256 && ok; b++ {
			ok = check(string([]byte{byte(a), byte(b)}))
		}
		for _, w := range words {
			ok = ok && check(w) && check(w+string([]byte{byte(a)})) && check(string([]byte{byte(a)})+w) && check(strings.ToUpper(w[:1])+w[1:]) && check(w[:len(w)-1]) && check(w[1:])
		}
	}
	const al = "0123456789+&=!()-|<[]*^>{}/:,;%.~_\"`'azAZ \t\n\r\\é\x00\xff$@#?"
	for ok && !vTimeUp() {
		b := []byte{}
		set := al
		if r.Intn(2) == 0 {
			k := r.Intn(len(al) - 8)
			set = al[k : k+2+r.Intn(6)]
		}
		for n := 1 + r.Intn(8); n > 0; n-- {
			b = append(b, set[r.Intn(len(set))])
		}
		ok = check(string(b))
		// long texts of one class, with at most one other byte
		class := []string{"0123456789", "+-*/=<>.&|", "abcxyz"}[r.Intn(3)]
		n := 1 + r.Intn(70)
		b = b[:0]
		for ; n > 0; n-- {
			b = append(b, class[r.Intn(len(class))])
		}
		if r.Intn(2) == 0 {
			b[r.Intn(len(b))] = al[r.Intn(len(al))]
		}
		ok = ok && check(string(b))
	}
	vDone()
}
