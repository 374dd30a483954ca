package goast

import (
	"fmt"
	"testing"

	"github.com/yanun0323/goast/kind"
)

func TestVerifSearch(t *testing.T) {
	r := vRand()
	words := []string{"func", "type", " ", "\t", "\n", "// c", "/* d */", "=", "f", "T", "a", "b", "int", "string", "error", "struct", "interface", "map", "chan", "any", "[", "]", "[", "]", "(", ")", "(", ")", "{", "}", "{", "}", ",", ".", "*", "...", ":", "return", "\"s\"", "1", "pkg"}
	kinds := []kind.Kind{kind.Raw, kind.Basic, kind.ParamName, kind.ParamType, kind.TypeName, kind.Comment, kind.Space, kind.Func, kind.Type, kind.Struct, kind.Interface, kind.ParenthesisLeft, kind.ParenthesisRight, kind.CurlyBracketLeft, kind.CurlyBracketRight, kind.SquareBracketLeft, kind.SquareBracketRight, kind.Comma, kind.NewLine, kind.None}
	// the chain from a node on
	chain := func(n *Node) (ns []*Node) {
		for ; n != nil && len(ns) < 10000; n = n.Next() {
			ns = append(ns, n)
		}
		return ns
	}
	refine := func(head *Node) string {
		ns := chain(head)
		texts, lines, no := []string{}, []int{}, map[*Node]int{}
		for i, n := range ns {
			no[n] = i
			texts = append(texts, n.Text())
			lines = append(lines, n.Line())
		}
		resetKind(head)
		if head != nil && head.Prev() != nil {
			return "the head has a previous node"
		}
		at := 0
		for i, n := range chain(head) {
			k, ok := no[n]
			if !ok {
				return fmt.Sprintf("node %d, %q, was not in the chain", i, n.Text())
			}
			if k != at {
				return fmt.Sprintf("node %d, %q, was node %d of the chain, should have been node %d", i, n.Text(), k, at)
			}
			if n.Line() != lines[k] {
				return fmt.Sprintf("node %d, %q, has the line %d, had %d", i, n.Text(), n.Line(), lines[k])
			}
			if n.Next() != nil && n.Next().Prev() != n {
				return fmt.Sprintf("the node behind node %d has another previous node", i)
			}
			// its text is that of one or more nodes of the chain
			s := ""
			for at < len(ns) {
				s += texts[at]
				at++
				if s == n.Text() && (n.Next() == nil && (at == len(ns)) || n.Next() != nil && at == no[n.Next()]) {
					break
				}
			}
			if s != n.Text() {
				return fmt.Sprintf("node %d has the text %q, should be some of %q", i, n.Text(), texts[k:])
			}
		}
		if at != len(ns) && len(ns) > 0 {
			return fmt.Sprintf("the chain has lost %q at its end", texts[at:])
		}
		return ""
	}
	for !vTimeUp() {
		if r.Intn(2) == 0 { // the scopes of a text, before they are refined
			vText(vRandText(r), func(s string) string {
				for _, w := range vScopes(0, s) {
					n, err := extract([]byte(s[w.lo:w.hi]))
					if err != nil {
						return "error " + err.Error()
					}
					for n != nil && n.Kind() != kind.Func && n.Kind() != kind.Type {
						n = n.Next()
					}
					if n != nil && n.Prev() != nil {
						n.RemovePrev()
					}
					if msg := refine(n); msg != "" {
						return fmt.Sprintf("scope %q: %s", s[w.lo:w.hi], msg)
					}
				}
				return ""
			})
			continue
		}
		type piece struct {
			s string
			k kind.Kind
		}
		ps := []piece{}
		for k := r.Intn(30); k >= 0; k-- {
			s := words[r.Intn(len(words))]
			ps = append(ps, piece{s, vKindOf(s)})
			if r.Intn(8) == 0 {
				ps[len(ps)-1].k = kinds[r.Intn(len(kinds))]
			}
		}
		if r.Intn(8) != 0 {
			ps[0] = []piece{{"func", kind.Func}, {"type", kind.Type}}[r.Intn(2)]
		}
		run := func(ps []piece) string {
			return vTry(fmt.Sprintf("%q", ps), func() string {
				var head, last *Node
				for i, p := range ps {
					n := NewNode(i/3, p.s)
					n.SetKind(p.k)
					if last == nil {
						head = n
					} else {
						last.ReplaceNext(n)
					}
					last = n
				}
				return refine(head)
			})
		}
		what := run(ps)
		if what == "" {
			continue
		}
		for i := 0; i < len(ps); { // a smaller chain
			qs := append(append([]piece{}, ps[:i]...), ps[i+1:]...)
			if w := run(qs); w != "" {
				ps, what = qs, w
				continue
			}
			i++
		}
		vReport(fmt.Sprintf("%q", ps), what)
	}
	vDone()
}
