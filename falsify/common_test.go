package goast

// Search for failing inputs of the real code: shared by the files of the properties.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/yanun0323/goast/kind"
)

var (
	vDeadline time.Time
	vCases    int
	vCurInput atomic.Value
	vCurStart atomic.Int64
	vFailed   bool
)

func vRand() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	b, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if b == 0 {
		b = 10
	}
	vDeadline = time.Now().Add(time.Duration(b) * time.Second)
	debug.SetMaxStack(256 << 20)
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			st := vCurStart.Load()
			if st == 0 {
				continue
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if time.Now().UnixNano()-st > int64(20*time.Second) {
				vReport(vCurInput.Load().(string), "the call does not return within 20 seconds")
				os.Exit(1)
			}
			if ms.HeapAlloc > 6<<30 {
				vReport(vCurInput.Load().(string), "the call takes more than 6 GB of memory")
				os.Exit(1)
			}
		}
	}()
	return rand.New(rand.NewSource(int64(seed)))
}

func vReport(input, what string) {
	vFailed = true
	fmt.Println("VERIF-FOUND", input, "::", what)
	b, _ := json.Marshal(map[string]string{"input": input, "what": what})
	if p := os.Getenv("VERIF_OUT"); p != "" {
		_ = os.WriteFile(p+".tmp", b, 0o644)
		_ = os.Rename(p+".tmp", p)
	}
}

func vTimeUp() bool { return vFailed || time.Now().After(vDeadline) }

func vDone() { fmt.Println("VERIF-CASES", vCases) }

var vCurFile *os.File

// vCase runs one case; f answers "" or what is wrong. A panic is wrong.
func vCase(input string, f func() string) bool {
	what := vTry(input, f)
	if what != "" {
		vReport(input, what)
		return false
	}
	return true
}

func vTry(input string, f func() string) (what string) {
	vCases++
	vCurInput.Store(input)
	if vCurFile == nil {
		if p := os.Getenv("VERIF_CUR"); p != "" {
			vCurFile, _ = os.Create(p)
		}
	}
	if vCurFile != nil {
		_, _ = vCurFile.WriteAt([]byte(input+"\n"), 0)
		_ = vCurFile.Truncate(int64(len(input) + 1))
	}
	vCurStart.Store(time.Now().UnixNano())
	defer func() {
		vCurStart.Store(0)
		if r := recover(); r != nil {
			what = fmt.Sprintf("panic: %v", r)
		}
	}()
	return f()
}

// vText runs one case on a text, and makes a failing text smaller.
func vText(text string, f func(string) string) bool {
	what := vTry(fmt.Sprintf("%q", text), func() string { return f(text) })
	if what == "" {
		return true
	}
	end := time.Now().Add(10 * time.Second)
	for size := len(text) / 2; size >= 1; {
		smaller := false
		for i := 0; i+size <= len(text) && time.Now().Before(end); i++ {
			t := text[:i] + text[i+size:]
			if w := vTry(fmt.Sprintf("%q", t), func() string { return f(t) }); w != "" {
				text, what, smaller = t, w, true
				break
			}
		}
		if !smaller {
			size /= 2
		}
	}
	vReport(fmt.Sprintf("%q", text), what)
	return false
}

var vToks = []string{"package p", "package", "import", "import \"x\"", "var", "const", "type", "func", "struct", "interface", "map", "chan", "int", "string", "a", "b.C", "x", "T", "Foo",
	"(", ")", "{", "}", "[", "]", ",", ":", ";", "\n", "\n", "\n", " ", " ", " ", "\t", "\r", "//", "// c", "/*", "*/", "/* c */", "/**/", "/*/", "*", "/", "\"", "\"s\"", "\\", "\\\\", "\\\"", "`", "`r`", "'", "'x'", "'\\''", "...", "=", "==", ":=", "1", "23", "\xff", "\x00", "é", "return", "types", "variable", "funcs", "go", "&", "<-"}

var vLines = []string{"package foo\n", "import (\n\t\"a\"\n\t\"b\"\n)\n", "var x = 1\n", "const (\n\ta = iota\n\tb\n)\n", "type T struct {\n\ta int\n\tb map[string][]int // c\n}\n",
	"type I interface {\n\tF(a int) error\n\tG()\n}\n", "type A = B\n", "type F func(int, string) (error, bool)\n", "func f(a int, b ...string) (int, error) {\n\treturn 1, nil\n}\n", "func (t *T) m() {}\n",
	"func (T) n(x func(int) error) map[string]int {\n\tfor {\n\t}\n}\n", "// comment\n", "/* a\nb */\n", "/**/\n", "var s = `a\nb`\n", "var q = \"\\\\\"\n", "var r = '\\''\n", "\n", "func g[T any](x T) T { return x }\n",
	"type G[T any] struct{ x T }\n", "var f = func() {\n}\n", "type M map[string]struct{}\n", "type (\n\tX int\n\tY struct{}\n)\n", "x", "types := 1\n"}

// vRandText makes a text of declarations and loose pieces.
func vRandText(r *rand.Rand) string {
	s := ""
	switch r.Intn(4) {
	case 0: // declarations, with a few pieces put in
		for k := r.Intn(6); k >= 0; k-- {
			l := vLines[r.Intn(len(vLines))]
			if r.Intn(3) == 0 {
				p := r.Intn(len(l) + 1)
				l = l[:p] + vToks[r.Intn(len(vToks))] + l[p:]
			}
			s += l
		}
	case 1: // a declaration keyword and pieces
		s = []string{"var ", "func ", "type ", "const ", "import ", "package ", "// "}[r.Intn(7)]
		fallthrough
	case 2:
		for k := r.Intn(16); k > 0; k-- {
			s += vToks[r.Intn(len(vToks))]
		}
	default: // bytes that matter to the lexer
		const al = "\"'`/*\\\n (){}ax"
		s = []string{"", "var ", "func ", "type "}[r.Intn(4)]
		for k := r.Intn(14); k > 0; k-- {
			s += string(al[r.Intn(len(al))])
		}
	}
	return s
}

// ---------------------------------------------------------------- the pieces of a text

func vKindOf(s string) kind.Kind {
	exact := map[string]kind.Kind{"": {}, "\t": {"\t", "Tab"}, " ": {" ", "Space"}, ",": {",", "Comma"}, ":": {":", "Colon"}, "\n": {"\n", "NewLine"}, ";": {";", "Semicolon"},
		"(": {"(", "ParenthesisLeft"}, ")": {")", "ParenthesisRight"}, "{": {"{", "CurlyBracketLeft"}, "}": {"}", "CurlyBracketRight"}, "[": {"[", "SquareBracketLeft"}, "]": {"]", "SquareBracketRight"},
		"import": {"import", "Import"}, "var": {"var", "Var"}, "const": {"const", "Const"}, "map": {"map", "Map"}, "chan": {"chan", "Channel"}, "func": {"func", "Func"}, "type": {"type", "Type"},
		"struct": {"struct", "Struct"}, "interface": {"interface", "Interface"}, "package": {"package", "Package"}, "\r": {"", "Separator"}}
	if k, ok := exact[s]; ok {
		return k
	}
	all := func(set string) bool {
		for i := 0; i < len(s); i++ {
			if strings.IndexByte(set, s[i]) < 0 {
				return false
			}
		}
		return true
	}
	word := func(list string) bool {
		for _, w := range strings.Fields(list) {
			if w == s {
				return true
			}
		}
		return false
	}
	switch {
	case all("0123456789"):
		return kind.Kind{"", "Number"}
	case s[0] == '"' || s[0] == '`':
		return kind.Kind{"", "String"}
	case word("break default select case defer go else goto switch fallthrough if range continue for return"):
		return kind.Kind{"", "Keyword"}
	case word("bool string byte rune int uint int8 uint8 int16 uint16 int32 uint32 int64 uint64 uintptr float32 float64 complex64 complex128"):
		return kind.Kind{"", "BasicType"}
	case all("+&=!()-|<[]*^>{}/:,;%.~_"):
		return kind.Kind{"", "Symbol"}
	}
	return kind.Kind{"", "Raw"}
}


type vPiece struct {
	lo, hi, line int
	kind         kind.Kind
}

// vPieces cuts a text into its lexical pieces.
func vPieces(start int, s string) []vPiece {
	var ps []vPiece
	line := start
	put := func(lo, hi int, k kind.Kind) {
		if lo < hi {
			ps = append(ps, vPiece{lo, hi, line, k})
			line += strings.Count(s[lo:hi], "\n")
		}
	}
	word := 0
	for i := 0; i < len(s); {
		end, k := i, kind.Kind{"", "String"}
		until := func(closer byte, escapes bool) {
			for end = i + 1; end < len(s); end++ {
				if escapes && s[end] == '\\' {
					end++
				} else if s[end] == closer {
					end++
					return
				}
			}
			end = len(s)
		}
		switch {
		case strings.HasPrefix(s[i:], "//"):
			k = kind.Kind{"", "Comment"}
			if j := strings.IndexByte(s[i:], '\n'); j >= 0 {
				end = i + j
			} else {
				end = len(s)
			}
		case strings.HasPrefix(s[i:], "/*"):
			k = kind.Kind{"", "Comment"}
			if j := strings.Index(s[i+2:], "*/"); j >= 0 {
				end = i + 2 + j + 2
			} else {
				end = len(s)
			}
		case s[i] == '"':
			until('"', true)
		case s[i] == '`':
			until('`', false)
		case s[i] == '\'':
			until('\'', true)
			k = vKindOf(s[i:end])
		case strings.IndexByte(" []() {},:;\n\t\r", s[i]) >= 0:
			end = i + 1
			k = vKindOf(s[i:end])
		default:
			i++
			continue
		}
		put(word, i, vKindOf(s[word:i]))
		put(i, end, k)
		i, word = end, end
	}
	put(word, len(s), vKindOf(s[word:]))
	return ps
}

// vScopeKind answers the kind of scope that a piece begins, "" for none.
func vScopeKind(t string) string {
	switch t {
	case "package", "import", "var", "const", "type", "func":
		return t
	}
	if strings.HasPrefix(t, "//") {
		return "//"
	}
	if strings.HasPrefix(t, "/*") {
		return "/*"
	}
	return ""
}

type vScope struct {
	kind         string
	lo, hi, line int
}

// vScopes cuts a text into its scopes.
func vScopes(start int, s string) []vScope {
	var out []vScope
	last := start - 1
	for _, p := range vPieces(start, s) {
		if p.line == last {
			continue
		}
		last = p.line
		if k := vScopeKind(s[p.lo:p.hi]); k != "" {
			if len(out) > 0 {
				out[len(out)-1].hi = p.lo
			}
			out = append(out, vScope{k, p.lo, len(s), p.line})
		}
	}
	return out
}

// ---------------------------------------------------------------- chains of nodes

type vWorld struct {
	nodes  []*Node
	id     map[*Node]int
	chains string
}

// vNewWorld makes 1 to 4 chains of up to 6 nodes.
func vNewWorld(r *rand.Rand) *vWorld {
	w := &vWorld{id: map[*Node]int{}}
	for k := 1 + r.Intn(3); k > 0; k-- {
		var ts []string
		for j := 1 + r.Intn(5); j > 0; j-- {
			ts = append(ts, []string{"a", "bb", "(", "x\n", "", "func", " ", "`r\n\n`", "// c", "7"}[r.Intn(10)])
		}
		w.chains += fmt.Sprintf(" %d..%d%q", len(w.nodes), len(w.nodes)+len(ts)-1, ts)
		for n := NewNodes(r.Intn(3), ts...); n != nil; n = n.Next() {
			if r.Intn(3) == 0 {
				n.SetKind([]kind.Kind{kind.ParamType, kind.Raw, kind.Comment, kind.None, kind.FuncName}[r.Intn(5)])
			}
			w.id[n] = len(w.nodes)
			w.nodes = append(w.nodes, n)
			if len(w.nodes) > 1000 {
				panic("NewNodes makes a cycle")
			}
		}
	}
	return w
}

// pick answers a node of the world, or nil (-1).
func (w *vWorld) pick(r *rand.Rand) (int, *Node) {
	k := r.Intn(len(w.nodes)+1) - 1
	if k < 0 {
		return -1, nil
	}
	return k, w.nodes[k]
}

func (w *vWorld) no(n *Node) int {
	if n == nil {
		return -1
	}
	if k, ok := w.id[n]; ok {
		return k
	}
	return -2
}

type vLinks struct{ next, prev []int }

func (w *vWorld) links() vLinks {
	l := vLinks{}
	for _, n := range w.nodes {
		l.next = append(l.next, w.no(n.Next()))
		l.prev = append(l.prev, w.no(n.Prev()))
	}
	return l
}

func (l vLinks) copy() vLinks {
	return vLinks{append([]int{}, l.next...), append([]int{}, l.prev...)}
}

func (l vLinks) nx(k int) int {
	if k < 0 {
		return -1
	}
	return l.next[k]
}

func (l vLinks) pv(k int) int {
	if k < 0 {
		return -1
	}
	return l.prev[k]
}

func (l vLinks) setNext(k, v int) {
	if k >= 0 {
		l.next[k] = v
	}
}

func (l vLinks) setPrev(k, v int) {
	if k >= 0 {
		l.prev[k] = v
	}
}

func (l vLinks) reaches(a, b int) bool { // along next
	for k := 0; a >= 0 && k <= len(l.next); k++ {
		if a == b {
			return true
		}
		a = l.next[a]
	}
	return false
}

// wrong answers what is wrong with the links: not mutual, or cyclic.
func (l vLinks) wrong() string {
	for k := range l.next {
		if l.next[k] == -2 || l.prev[k] == -2 {
			return fmt.Sprintf("node %d is linked to a node from elsewhere", k)
		}
		if n := l.next[k]; n >= 0 && l.prev[n] != k {
			return fmt.Sprintf("next of %d is %d, but prev of %d is %d", k, n, n, l.prev[n])
		}
		if p := l.prev[k]; p >= 0 && l.next[p] != k {
			return fmt.Sprintf("prev of %d is %d, but next of %d is %d", k, p, p, l.next[p])
		}
		n := l.next[k]
		for j := 0; n >= 0; j++ {
			if n == k || j > len(l.next) {
				return fmt.Sprintf("the chain of %d runs into itself", k)
			}
			n = l.next[n]
		}
	}
	return ""
}

func (l vLinks) diff(m vLinks) string {
	for k := range l.next {
		if l.next[k] != m.next[k] {
			return fmt.Sprintf("next of %d is %d, should be %d", k, l.next[k], m.next[k])
		}
		if l.prev[k] != m.prev[k] {
			return fmt.Sprintf("prev of %d is %d, should be %d", k, l.prev[k], m.prev[k])
		}
	}
	return ""
}

// vEdit makes one random editing call; ops limits the choice. It answers the call, the
// links expected after it, the returned nodes and the expected ones.
func (w *vWorld) vEdit(r *rand.Rand, ops []string) (call string, do func() []int, want vLinks, ret []int) {
	for {
		l := w.links()
		op := ops[r.Intn(len(ops))]
		i, n := w.pick(r)
		j, m := w.pick(r)
		want = l.copy()
		two := func(f func(*Node) (*Node, *Node)) func() []int {
			return func() []int { a, b := f(m); return []int{w.no(a), w.no(b)} }
		}
		one := func(f func() *Node) func() []int { return func() []int { return []int{w.no(f())} } }
		noop := i == j
		switch op {
		case "InsertNext":
			noop = noop || l.nx(i) == j
			do, ret = two(n.InsertNext), []int{l.pv(j), l.nx(j)}
			if !noop {
				on := l.nx(i)
				want.setNext(l.pv(j), -1)
				want.setPrev(l.nx(j), -1)
				want.setNext(i, j)
				want.setPrev(j, i)
				want.setNext(j, on)
				want.setPrev(on, j)
			}
		case "InsertPrev":
			noop = noop || l.pv(i) == j
			do, ret = two(n.InsertPrev), []int{l.pv(j), l.nx(j)}
			if !noop {
				op := l.pv(i)
				want.setNext(l.pv(j), -1)
				want.setPrev(l.nx(j), -1)
				want.setPrev(i, j)
				want.setNext(j, i)
				want.setPrev(j, op)
				want.setNext(op, j)
			}
		case "ReplaceNext":
			noop = noop || l.nx(i) == j
			if !noop && i >= 0 && j >= 0 && l.reaches(j, i) {
				continue // would close the chain
			}
			do, ret = two(n.ReplaceNext), []int{l.pv(j), l.nx(i)}
			if !noop {
				want.setNext(l.pv(j), -1)
				want.setPrev(l.nx(i), -1)
				want.setNext(i, j)
				want.setPrev(j, i)
			}
		case "ReplacePrev":
			noop = noop || l.pv(i) == j
			if !noop && i >= 0 && j >= 0 && l.reaches(i, j) {
				continue
			}
			do, ret = two(n.ReplacePrev), []int{l.pv(i), l.nx(j)}
			if !noop {
				want.setPrev(l.nx(j), -1)
				want.setNext(l.pv(i), -1)
				want.setPrev(i, j)
				want.setNext(j, i)
			}
		case "TakeNext":
			noop = false
			t := l.nx(i)
			do, ret = one(n.TakeNext), []int{t}
			if t >= 0 {
				tn := l.nx(t)
				want.setNext(i, tn)
				want.setPrev(tn, i)
				want.setNext(t, -1)
				want.setPrev(t, -1)
			}
		case "TakePrev":
			noop = false
			t := l.pv(i)
			do, ret = one(n.TakePrev), []int{t}
			if t >= 0 {
				tp := l.pv(t)
				want.setPrev(i, tp)
				want.setNext(tp, i)
				want.setNext(t, -1)
				want.setPrev(t, -1)
			}
		case "RemoveNext":
			noop = false
			t := l.nx(i)
			do, ret = one(n.RemoveNext), []int{t}
			want.setNext(i, -1)
			want.setPrev(t, -1)
		case "RemovePrev":
			noop = false
			t := l.pv(i)
			do, ret = one(n.RemovePrev), []int{t}
			want.setPrev(i, -1)
			want.setNext(t, -1)
		case "Isolate":
			noop = false
			do, ret = func() []int { n.Isolate(); return nil }, nil
			want.setNext(l.pv(i), -1)
			want.setPrev(l.nx(i), -1)
			want.setNext(i, -1)
			want.setPrev(i, -1)
		case "CombineNext", "CombinePrev":
			k := r.Intn(4)
			var ns []*Node
			var is []int
			for ; k > 0; k-- {
				a, b := w.pick(r)
				is, ns = append(is, a), append(ns, b)
			}
			call = fmt.Sprintf("%d.%s(%v)", i, op, is)
			want = vLinks{}
			f := n.CombineNext
			if op == "CombinePrev" {
				f = n.CombinePrev
			}
			return call, func() []int { f(n.Kind(), ns...); return nil }, want, nil
		}
		switch op {
		case "InsertNext", "InsertPrev", "ReplaceNext", "ReplacePrev":
			call = fmt.Sprintf("%d.%s(%d)", i, op, j)
			if noop {
				ret = []int{-1, -1}
			}
		default:
			call = fmt.Sprintf("%d.%s()", i, op)
		}
		return call, do, want, ret
	}
}

// vEdits searches through random sequences of editing calls.
func vEdits(r *rand.Rand, ops []string, exact bool) {
	for !vTimeUp() {
		var w *vWorld
		if !vCase("building chains", func() string { w = vNewWorld(r); return "" }) {
			break
		}
		hist := w.chains + ":"
		ok := true
		for k := 1 + r.Intn(6); k > 0 && ok; k-- {
			call, do, want, ret := w.vEdit(r, ops)
			hist += " " + call
			ok = vCase("nodes"+hist, func() string {
				got := do()
				l := w.links()
				if s := l.wrong(); s != "" {
					return s
				}
				if !exact {
					return ""
				}
				if s := l.diff(want); s != "" {
					return s
				}
				if fmt.Sprint(got) != fmt.Sprint(ret) {
					return fmt.Sprintf("returns %v, should be %v", got, ret)
				}
				return ""
			})
		}
	}
	vDone()
}
