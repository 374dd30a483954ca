From f2db011dcc5f147136fa1f1c03ab0bcb57fd8fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 01/16] fix: compare every byte of the prefix in HasPrefix

Ranging over a string visits the first byte of each rune only, so the
other bytes of a non-ASCII prefix were never compared.
---
 helper/helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helper/helper.go b/helper/helper.go
index a1cda9a..054dc42 100755
--- a/helper/helper.go
+++ b/helper/helper.go
@@ -109,7 +109,7 @@ func HasPrefix(s []byte, prefix string) bool {
 		return false
 	}
 
-	for i := range prefix {
+	for i := 0; i < len(prefix); i++ {
 		if s[i] != prefix[i] {
 			return false
 		}
-- 
2.43.0


From 2fe5c12c87590fcd1078c745a2ce18598ea894e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 02/16] fix: keep the values of shorter keys when a trie gets a
 longer one

AddText went through Insert for every byte of the key, which overwrote
the value of every stored key that is a prefix of the new one with the
zero value.
---
 trie.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trie.go b/trie.go
index 50be38f..32458f1 100755
--- a/trie.go
+++ b/trie.go
@@ -24,7 +24,11 @@ func (t *trie_[T]) AddText(s string, value T) *trie_[T] {
 	var zero T
 	n := t
 	for i := range s {
-		n = n.Insert(s[i], zero)
+		next, ok := n.Next(s[i])
+		if !ok {
+			next = n.Insert(s[i], zero)
+		}
+		n = next
 	}
 	n.value = value
 	return n
-- 
2.43.0


From f8cfa29d50851173f16bead4bf9729cb5ac76fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 03/16] fix: store and look up trie keys byte by byte

Ranging over the key visits the first byte of each rune only, so
different non-ASCII keys shared one entry and FindByte could not find
what AddText had stored.
---
 trie.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trie.go b/trie.go
index 32458f1..0c67e22 100755
--- a/trie.go
+++ b/trie.go
@@ -23,7 +23,7 @@ func (t *trie_[T]) AddText(s string, value T) *trie_[T] {
 
 	var zero T
 	n := t
-	for i := range s {
+	for i := 0; i < len(s); i++ {
 		next, ok := n.Next(s[i])
 		if !ok {
 			next = n.Insert(s[i], zero)
@@ -59,7 +59,7 @@ func (t *trie_[T]) FindText(s string) (T, bool) {
 
 	n := t
 	ok := false
-	for i := range s {
+	for i := 0; i < len(s); i++ {
 		n, ok = n.Next(s[i])
 		if !ok {
 			return n.Value(), false
-- 
2.43.0


From 46d7397d5aa32134d8d7e0b9980f6564681906f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 04/16] fix: count the newlines of the first text in NewNodes

---
 node.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/node.go b/node.go
index dee965b..5ee1f88 100755
--- a/node.go
+++ b/node.go
@@ -30,6 +30,7 @@ func NewNodes(startLine int, texts ...string) *Node {
 	}
 
 	head := NewNode(startLine, texts[0])
+	startLine += strings.Count(texts[0], "\n")
 	cur := head
 	for _, text := range texts[1:] {
 		cur.InsertNext(NewNode(startLine, text))
-- 
2.43.0


From cf724d0acc0b424e07061ad9afcbc86745ef4723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 05/16] fix: combine into the first real node when the current
 one is nil

CombinePrev and CombineNext on a nil node panicked when the first
incoming node was nil too, and never gave the resulting node the
requested kind.
---
 node.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/node.go b/node.go
index 5ee1f88..10cc8e2 100755
--- a/node.go
+++ b/node.go
@@ -281,17 +281,17 @@ func (n *Node) RemoveNext() *Node {
 //
 // e.g. (nn3 - nn2 - nn1 - n)
 func (n *Node) CombinePrev(k kind.Kind, nns ...*Node) *Node {
+	for n == nil && len(nns) != 0 {
+		n = nns[0]
+		nns = nns[1:]
+	}
+
 	n.SetKind(k)
 
 	if len(nns) == 0 {
 		return n
 	}
 
-	if n == nil {
-		n = nns[0]
-		nns = nns[1:]
-	}
-
 	buf := make([]string, 0, len(nns)+1)
 	buf = append(buf, n.Text())
 	for _, nn := range nns {
@@ -316,17 +316,17 @@ func (n *Node) CombinePrev(k kind.Kind, nns ...*Node) *Node {
 //
 // e.g. (n - nn1 - nn2 - nn3)
 func (n *Node) CombineNext(k kind.Kind, nns ...*Node) *Node {
+	for n == nil && len(nns) != 0 {
+		n = nns[0]
+		nns = nns[1:]
+	}
+
 	n.SetKind(k)
 
 	if len(nns) == 0 {
 		return n
 	}
 
-	if n == nil {
-		n = nns[0]
-		nns = nns[1:]
-	}
-
 	buf := make([]string, 0, len(nns)+1)
 	buf = append(buf, n.Text())
 	for _, nn := range nns {
-- 
2.43.0


From 0a9cb9f3ede6fe506783d25e9311cc18a0ff9290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 06/16] fix: give an opening bracket the line it stands on

The node of '(' and '{' got the line of the last word before it. A
bracket that leads a line then made ParseScope take the node after it
for the first of the line, and split the scope at e.g. '(func() {})()'.
---
 extractor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor.go b/extractor.go
index 88ef608..da5d286 100755
--- a/extractor.go
+++ b/extractor.go
@@ -177,7 +177,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 			if ee != nil && ee.IncludeOpen { // /* // " `
 				buf.WriteByte(char)
 			} else { // ( {
-				insertNode(NewNode(bufLine, string(char)))
+				insertNode(NewNode(*line, string(char)))
 			}
 			*i++
 			ns, err := ee.Run(text, buf, i, line)
-- 
2.43.0


From 062bc9fda7266dfa36b3c39e1fc228ac754a94a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 07/16] fix: end a string literal at the quote after an escaped
 backslash

The quote in "\\\\" was taken for an escaped one, so the string node ran
on over the following declarations.
---
 extractor.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/extractor.go b/extractor.go
index da5d286..db09967 100755
--- a/extractor.go
+++ b/extractor.go
@@ -66,7 +66,7 @@ var (
 		IncludeClose:      true,
 		SeparatorCharset:  nil,
 		ReturnKeyword:     "\"",
-		SkipReturnKeyword: "\\\"",
+		SkipReturnKeyword: "\\",
 	}
 
 	_multilineStringExtractor = &extractor{
@@ -190,9 +190,14 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 
 		trailing := text[:*i+1]
 		if len(e.SkipReturnKeyword) != 0 && helper.HasSuffix(trailing, e.SkipReturnKeyword) {
-			// skip return
+			// skip return: the next char is escaped, whatever it is
 			buf.WriteByte(char)
 			lineStep()
+			if *i+1 < len(text) {
+				*i++
+				buf.WriteByte(text[*i])
+				lineStep()
+			}
 			continue
 		}
 
-- 
2.43.0


From e0274af0acd8a1d29d4e6394559435571ffc6979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 08/16] fix: do not close a block comment with the '*' that
 opens it

'/*/' was taken for a whole comment.
---
 extractor.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/extractor.go b/extractor.go
index db09967..7d26eb7 100755
--- a/extractor.go
+++ b/extractor.go
@@ -95,17 +95,17 @@ var (
 
 type deeperExtract map[string]*extractor
 
-func (de deeperExtract) PrefixFit(s []byte) (*extractor, bool) {
+func (de deeperExtract) PrefixFit(s []byte) (string, *extractor, bool) {
 	if de == nil {
-		return nil, false
+		return "", nil, false
 	}
 
 	for k, v := range de {
 		if helper.HasPrefix(s, k) {
-			return v, true
+			return k, v, true
 		}
 	}
-	return nil, false
+	return "", nil, false
 }
 
 type extractor struct {
@@ -128,6 +128,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 	)
 
 	bufLine := *line
+	begin := *i
 
 	insertNode := func(n *Node) {
 		if n == nil {
@@ -171,15 +172,15 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 	for ; *i < len(text); *i++ {
 		char = text[*i]
 
-		if ee, ok := e.DeeperExtract().PrefixFit(text[*i:]); ok {
+		if open, ee, ok := e.DeeperExtract().PrefixFit(text[*i:]); ok {
 			// () {} /**/ "" `` //\n
 			pushNode(true)
 			if ee != nil && ee.IncludeOpen { // /* // " `
-				buf.WriteByte(char)
+				buf.WriteString(open)
 			} else { // ( {
-				insertNode(NewNode(*line, string(char)))
+				insertNode(NewNode(*line, open))
 			}
-			*i++
+			*i += len(open)
 			ns, err := ee.Run(text, buf, i, line)
 			if err != nil {
 				return nil, err
@@ -188,7 +189,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 			continue
 		}
 
-		trailing := text[:*i+1]
+		trailing := text[begin : *i+1]
 		if len(e.SkipReturnKeyword) != 0 && helper.HasSuffix(trailing, e.SkipReturnKeyword) {
 			// skip return: the next char is escaped, whatever it is
 			buf.WriteByte(char)
-- 
2.43.0


From 5b387598c62e746a4140c89e58f155e669775284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 09/16] fix: keep a rune literal in one node

A quote, bracket or separator in a rune literal, such as '"' or '{', was
taken for the start of a string or a block.
---
 extractor.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/extractor.go b/extractor.go
index 7d26eb7..2c2aa4b 100755
--- a/extractor.go
+++ b/extractor.go
@@ -78,6 +78,15 @@ var (
 		SkipReturnKeyword: "",
 	}
 
+	_runeExtractor = &extractor{
+		kind:              kind.Raw,
+		IncludeOpen:       true,
+		IncludeClose:      true,
+		SeparatorCharset:  nil,
+		ReturnKeyword:     "'",
+		SkipReturnKeyword: "\\",
+	}
+
 	_deeperExtractTable = map[*extractor]deeperExtract{
 		_commonExtractor:       _commonDeeperExtract,
 		_parenthesisExtractor:  _commonDeeperExtract,
@@ -90,6 +99,7 @@ var (
 		"/*": _innerCommentExtractor,
 		"\"": _stringExtractor,
 		"`":  _multilineStringExtractor,
+		"'":  _runeExtractor,
 	}
 )
 
@@ -173,9 +183,9 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 		char = text[*i]
 
 		if open, ee, ok := e.DeeperExtract().PrefixFit(text[*i:]); ok {
-			// () {} /**/ "" `` //\n
+			// () {} /**/ "" `` '' //\n
 			pushNode(true)
-			if ee != nil && ee.IncludeOpen { // /* // " `
+			if ee != nil && ee.IncludeOpen { // /* // " ` '
 				buf.WriteString(open)
 			} else { // ( {
 				insertNode(NewNode(*line, open))
-- 
2.43.0


From 155fed778c5a889602aeb63af8d819509a3a3182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 10/16] fix: keep kind and line of a comment or literal that
 ends the text

A comment that is not followed by a newline became a Raw node.
---
 extractor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extractor.go b/extractor.go
index 2c2aa4b..7087fa9 100755
--- a/extractor.go
+++ b/extractor.go
@@ -235,7 +235,11 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 
 		lineStep()
 	}
-	pushNode(true)
+	if e.IncludeOpen { // text ends inside a comment or a literal
+		pushNode(false, e.Kind()...)
+	} else {
+		pushNode(true)
+	}
 	return head, nil
 }
 
-- 
2.43.0


From 117e5bb3a41651eb7bdc13e778e09e23e6ec97d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 11/16] fix: count lines from startLine in ParseScope

Only the line to compare the first node with took startLine into account.
Every node kept its line counted from 0, and with startLine 1 the first
declaration was not recognised.
---
 extractor.go | 9 +++++++--
 scope.go     | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/extractor.go b/extractor.go
index 7087fa9..85b8fc3 100755
--- a/extractor.go
+++ b/extractor.go
@@ -10,9 +10,14 @@ import (
 
 // extract parses file text content into nodes.
 func extract(text []byte) (*Node, error) {
+	return extractFrom(0, text)
+}
+
+// extractFrom parses text content whose first line has the given number into nodes.
+func extractFrom(line int, text []byte) (*Node, error) {
 	var (
-		i, line int
-		buf     strings.Builder
+		i   int
+		buf strings.Builder
 	)
 	node, err := _commonExtractor.Run(text, &buf, &i, &line)
 	if err != nil {
diff --git a/scope.go b/scope.go
index 4e10c51..901b058 100755
--- a/scope.go
+++ b/scope.go
@@ -61,7 +61,7 @@ func NewScope(line int, kind scope.Kind, node *Node) Scope {
 
 // ParseScope parses the given text into scopes.
 func ParseScope(startLine int, text []byte) ([]Scope, error) {
-	node, err := extract(text)
+	node, err := extractFrom(startLine, text)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 3172563246b193c1d03500f653e1f61da241d4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 12/16] fix: start a scope at a whole keyword only

A label at the start of a line, such as 'funcLoop:', split the scope.
---
 scope.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/scope.go b/scope.go
index 901b058..87dba10 100755
--- a/scope.go
+++ b/scope.go
@@ -176,11 +176,12 @@ func newScopeKind(s string) scope.Kind {
 
 func isScopeKind(s string, k scope.Kind) bool {
 	ks := string(k)
-	if len(s) < len(ks) {
-		return false
+	switch k {
+	case scope.Comment, scope.InnerComment:
+		return len(s) >= len(ks) && s[:len(ks)] == ks
+	default:
+		return s == ks
 	}
-
-	return s[:len(ks)] == ks
 }
 
 func (d *scopeStruct) GetFuncName() (string, bool) {
-- 
2.43.0


From b599ffab66bedf955197199e9706f0d211b45e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 13/16] fix: report ErrNoPackage for a package clause without a
 name

A package that is named like a basic type, such as 'package string', is
found as well.
---
 ast.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 586f659..75f5e37 100755
--- a/ast.go
+++ b/ast.go
@@ -109,7 +109,7 @@ func findPackageName(scs []Scope) (string, error) {
 
 	packageKeywordAppeared := false
 	result := packageScope.Node().IterNext(func(n *Node) bool {
-		if packageKeywordAppeared && n.Kind() == kind.Raw {
+		if packageKeywordAppeared && (n.Kind() == kind.Raw || n.Kind() == kind.Basic) {
 			return false
 		}
 
@@ -120,6 +120,10 @@ func findPackageName(scs []Scope) (string, error) {
 		return true
 	})
 
+	if result == nil {
+		return "", ErrNoPackage
+	}
+
 	return result.Text(), nil
 }
 
-- 
2.43.0


From f54a4c8bdc41f687c72012f4dd54af982c070008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 14/16] fix: keep comments between the nodes a type is combined
 from

---
 kind_resetter_all.go  | 24 ++++++++++++++++++------
 kind_resetter_func.go |  7 +------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/kind_resetter_all.go b/kind_resetter_all.go
index 5938780..8e4fadc 100755
--- a/kind_resetter_all.go
+++ b/kind_resetter_all.go
@@ -105,6 +105,23 @@ func handleHook(n *Node, hooks ...func(*Node)) {
 // 	})
 // }
 
+// combineAdjacent combines the first of the collected nodes with those of the
+// collected nodes that follow it without a gap, so that no node between them,
+// such as a comment, gets lost and none is combined twice.
+func combineAdjacent(k kind.Kind, collected []*Node) {
+	if len(collected) == 0 {
+		return
+	}
+
+	set := charset.New(collected...)
+	head := collected[0]
+	head.SetKind(k)
+	for next := head.Next(); next != nil && set.Contain(next); next = head.Next() {
+		head.SetText(head.Text() + next.Text())
+		head.TakeNext()
+	}
+}
+
 type paramResetter struct {
 	skip        bool
 	resetKind   kind.Kind
@@ -129,12 +146,7 @@ func (r paramResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 	returnKindSet := charset.New(r.returnKinds...)
 
 	defer func() {
-		if len(buf) != 0 {
-			n := buf[0]
-			next := buf[len(buf)-1].Next()
-			n = n.CombineNext(r.resetKind, buf[1:]...)
-			n.ReplaceNext(next)
-		}
+		combineAdjacent(r.resetKind, buf)
 	}()
 
 	return head.IterNext(func(n *Node) bool {
diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 4c6484c..3ae0e91 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -249,12 +249,7 @@ func (r funcResetter) handleSingleReturnType(head *Node, hooks ...func(*Node)) *
 	)
 
 	defer func() {
-		if len(buf) != 0 {
-			n := buf[0]
-			next := buf[len(buf)-1].Next()
-			n = n.CombineNext(kind.ParamType, buf[1:]...)
-			n.ReplaceNext(next)
-		}
+		combineAdjacent(kind.ParamType, buf)
 	}()
 
 	return head.IterNext(func(n *Node) bool {
-- 
2.43.0


From 226cf5edc5337307246fb311a67196edcb0eaa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 15/16] fix: report a struct or interface name only for what
 the type names

---
 scope.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/scope.go b/scope.go
index 87dba10..320a60f 100755
--- a/scope.go
+++ b/scope.go
@@ -231,13 +231,7 @@ func (d *scopeStruct) GetStructName() (string, bool) {
 		return "", false
 	}
 
-	isStruct := false
-
-	d.Node().IterNext(func(n *Node) bool {
-		isStruct = n.Kind() == kind.Struct
-		return !isStruct
-	})
-
+	isStruct := d.typeDefinition().Kind() == kind.Struct
 	typeName, _ := d.GetTypeName()
 
 	return typeName, isStruct
@@ -248,16 +242,31 @@ func (d *scopeStruct) GetInterfaceName() (string, bool) {
 		return "", false
 	}
 
-	isInterface := false
+	isInterface := d.typeDefinition().Kind() == kind.Interface
+	typeName, _ := d.GetTypeName()
 
-	d.Node().IterNext(func(n *Node) bool {
-		isInterface = n.Kind() == kind.Interface
-		return !isInterface
+	return typeName, isInterface
+}
+
+// typeDefinition returns the first node of what the type name stands for.
+func (d *scopeStruct) typeDefinition() *Node {
+	name := d.Node().IterNext(func(n *Node) bool {
+		return n.Kind() != kind.TypeName
 	})
 
-	typeName, _ := d.GetTypeName()
+	n := name.Next()
+	if n.Kind() == kind.SquareBracketLeft { // type parameters
+		n = n.skipNestNext(kind.SquareBracketLeft, kind.SquareBracketRight).Next()
+	}
 
-	return typeName, isInterface
+	return n.IterNext(func(n *Node) bool {
+		switch n.Kind() {
+		case kind.Space, kind.Tab, kind.NewLine, kind.Comment:
+			return true
+		default:
+			return n.Text() == "="
+		}
+	})
 }
 
 func (d *scopeStruct) GetMethodName() (string, bool) {
-- 
2.43.0


From 8bb099b0149044c70fd784d3a53548f42e470538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 16/16] fix: appending scopes to a source leaves lists shared
 with other sources alone

---
 ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 75f5e37..3be7609 100755
--- a/ast.go
+++ b/ast.go
@@ -209,7 +209,7 @@ func (f *ast) SetScope(scope []Scope) Ast {
 }
 
 func (f *ast) AppendScope(scs ...Scope) {
-	f.scope = append(f.scope, scs...)
+	f.scope = append(f.scope[:len(f.scope):len(f.scope)], scs...)
 }
 
 func (f *ast) Description() string {
-- 
2.43.0

