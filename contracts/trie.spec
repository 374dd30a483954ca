// trie: a dictionary from byte strings to values.
// root is the trie a node belongs to, path the text that leads to it, nodes (of a root) what each text leads to
ghostfield trie_.root *trie_ fresh
ghostfield trie_.path string
ghostfield trie_.nodes dict[*trie_]
// which node a map of children belongs to
ghostvar mowner seq[*trie_]

group tries
// a text with one more byte, the first k bytes of a text, the reversed text
logic snoc(string, int) string
logic snocInit(string) string
logic snocLast(string) int
axiom snoc: forall p string, b int :: {snoc(p, b)} 0 <= b && b <= 255 ==> snocInit(snoc(p, b)) == p && snocLast(snoc(p, b)) == b && len(snoc(p, b)) == len(p) + 1
logic pre(string, int) string
axiom pre0: forall s string, k int :: {pre(s, k)} k == 0 ==> pre(s, k) == ""
axiom preLen: forall s string, k int :: {pre(s, k)} 0 <= k && k <= len(s) ==> len(pre(s, k)) == k
axiom preAll: forall s string, k int :: {pre(s, k)} k == len(s) ==> pre(s, k) == s
axiom pre1: forall s string, p int :: {pre(s, p), ti(p)} 0 <= p && p < len(s) ==> pre(s, p + 1) == snoc(pre(s, p), s[p])
logic rev(string) string
axiom revLen: forall s string :: {rev(s)} len(rev(s)) == len(s)
axiom revAt: forall s string, k int :: {rev(s)[k]} 0 <= k && k < len(s) ==> rev(s)[k] == s[len(s)-1-k]
// ti(x) is always true: it only names a number
logic ti(int) bool
axiom ti: forall x int :: {ti(x)} ti(x)
// a dictionary with one entry, for the empty text
logic only(*trie_) dict[*trie_]
axiom only: forall x *trie_, k string :: {only(x)[k]} only(x)[k] == (k == "" ? x : nil)
pure closed(N dict[*trie_]) = forall p string, b int :: {N[snoc(p, b)]} N[p] == nil && 0 <= b && b <= 255 ==> N[snoc(p, b)] == nil
lemma gone by induction on m: forall m int, N dict[*trie_], s string, k int :: {pre(s, m), N[pre(s, k)]}
  0 <= k && k <= m && m <= len(s) && closed(N) && N[pre(s, k)] == nil && ti(m - 1) ==> N[pre(s, m)] == nil
group

pure child(x *trie_, b int) = x.next == nil || !(b in x.next) ? nil : x.next[b]
pure tries() = (forall x *trie_ :: {x.root} x.root != nil ==> x.root.root == x.root && x.root.path == "" && x.root.nodes[x.path] == x)
   && (forall x *trie_ :: {x.next} x.root != nil && x.next != nil ==> mowner[x.next] == x)
   && (forall x *trie_, b int :: {b in x.next} {x.root.nodes[snoc(x.path, b)]} x.root != nil && 0 <= b && b <= 255 ==> child(x, b) == x.root.nodes[snoc(x.path, b)] && (b in x.next ==> x.next[b] != nil))
   && (forall x *trie_, s string :: {x.nodes[s]} x.root == x && x != nil && x.nodes[s] != nil ==> x.nodes[s].root == x && x.nodes[s].path == s)
   && (forall x *trie_ :: {x.nodes} x.root == x && x != nil ==> closed(x.nodes))

func (*goast.trie_[T]).Value(t) (r)
  ensures [C17] value: r == (t == nil ? zero(T) : t.value)
  safety [C17]

func (*goast.trie_[T]).Next(t, key) (r, ok)
  ensures [C17] child: r == (t == nil ? nil : child(t, key))
  ensures [C17] found: ok <==> t != nil && t.next != nil && key in t.next
  safety [C17]

func (*goast.trie_[T]).Insert(t, key, value) (r)
  uses tries
  modifies trie_.value, trie_.next, trie_.root, trie_.path, trie_.nodes, MD<byte=>*goast.trie_[T]>, MV<byte=>*goast.trie_[T]>, mowner
  requires [C17] tries: tries()
  requires [C17] inside: t == nil || t.root != nil
  ghost r.root := t == nil ? r.root : t.root
  ghost r.path := t == nil ? r.path : snoc(t.path, key)
  ghost t.root.nodes := t == nil ? t.root.nodes : store(t.root.nodes, snoc(t.path, key), r)
  ghost mowner[t.next] := t == nil ? mowner[t.next] : t
  ensures [C17] tries: tries()
  ensures [C17] nil: t == nil ==> r == nil
  ensures [C17] node: t != nil ==> r != nil && r.value == value && r.root == t.root && r.path == snoc(t.path, key)
  ensures [C17] nodes: t != nil ==> t.root.nodes == store(old(t.root.nodes), snoc(t.path, key), r)
  ensures [C17] kept: t != nil && old(t.root.nodes[snoc(t.path, key)]) != nil ==> r == old(t.root.nodes[snoc(t.path, key)])
  ensures [C17] fresh: t != nil && old(t.root.nodes[snoc(t.path, key)]) == nil ==> isnew(r)
  ensures [C17] others: forall x *trie_ :: {x.value} isold(x) && x != r ==> x.value == old(x.value)
  ensures [C17] places: forall x *trie_ :: {x.root} {x.path} isold(x) ==> x.root == old(x.root) && x.path == old(x.path)
  ensures [C17] other-tries: forall x *trie_ :: {x.nodes} isold(x) && (t == nil || x != t.root) ==> x.nodes == old(x.nodes)
  safety [C17]

func (*goast.trie_[T]).AddText(t, s, value) (r)
  uses tries
  option noframes
  modifies trie_.value, trie_.next, trie_.root, trie_.path, trie_.nodes, MD<byte=>*goast.trie_[T]>, MV<byte=>*goast.trie_[T]>, mowner
  requires [C17] tries: tries()
  requires [C17] whole: t == nil || t.root == t
  ensures [C17] tries: tries()
  ensures [C17] keys: forall k string :: {t.nodes[k]} t != nil ==> (t.nodes[k] != nil <==> old(t.nodes[k]) != nil || (len(k) <= len(s) && k == pre(s, len(k))))
  ensures [C17] nodes-kept: forall k string :: {t.nodes[k]} t != nil && old(t.nodes[k]) != nil ==> t.nodes[k] == old(t.nodes[k])
  ensures [C17] stored: t != nil ==> r == t.nodes[s] && r != nil && r.value == value
  ensures [C17] values: forall k string :: {t.nodes[k]} t != nil && t.nodes[k] != nil && k != s ==> t.nodes[k].value == (old(t.nodes[k]) == nil ? zero(T) : old(t.nodes[k].value))
  ensures [C17] other-tries: forall x *trie_ :: {x.nodes} isold(x) && x != t ==> x.nodes == old(x.nodes)
  ensures [C17] other-values: forall x *trie_ :: {x.value} isold(x) && (t == nil || x.root != t) ==> x.value == old(x.value)
  ensures [C17] places: forall x *trie_ :: {x.root} {x.path} isold(x) ==> x.root == old(x.root) && x.path == old(x.path)
  safety [C17]
  inv for $i int, $n *trie_ :: 0 <= $i && $i <= len(s) && ti($i) && $n != nil && $n == t.nodes[pre(s, $i)]
  inv tries() && t.root == t
  inv for $i int :: forall k string :: {t.nodes[k]} t.nodes[k] != nil <==> old(t.nodes[k]) != nil || (len(k) <= $i && k == pre(s, len(k)))
  inv forall k string :: {t.nodes[k]} old(t.nodes[k]) != nil ==> t.nodes[k] == old(t.nodes[k])
  inv forall k string :: {t.nodes[k]} t.nodes[k] != nil ==> t.nodes[k].value == (old(t.nodes[k]) == nil ? zero(T) : old(t.nodes[k].value))
  inv forall x *trie_ :: {x.nodes} isold(x) && x != t ==> x.nodes == old(x.nodes)
  inv forall x *trie_ :: {x.value} isold(x) && x.root != t ==> x.value == old(x.value)
  inv forall x *trie_ :: {x.root} {x.path} isold(x) ==> x.root == old(x.root) && x.path == old(x.path)

pure found(t *trie_, s string, v T, ok bool) = (ok <==> t != nil && t.nodes[s] != nil) && v == (ok ? t.nodes[s].value : zero(T))

func (*goast.trie_[T]).FindText(t, s) (v, ok)
  uses tries
  requires [C17] tries: tries()
  requires [C17] whole: t == nil || t.root == t
  hint pre(s, len(s)) == s
  ensures [C17] success: ok <==> t != nil && t.nodes[s] != nil
  ensures [C17] value: v == (ok ? t.nodes[s].value : zero(T))
  safety [C17]
  inv for $i int, $n *trie_ :: 0 <= $i && $i <= len(s) && ti($i) && $n != nil && $n == t.nodes[pre(s, $i)]

func (*goast.trie_[T]).FindTextReversely(t, s) (v, ok)
  uses tries
  requires [C17] tries: tries()
  requires [C17] whole: t == nil || t.root == t
  hint pre(rev(s), len(rev(s))) == rev(s)
  ensures [C17] success: ok <==> t != nil && t.nodes[rev(s)] != nil
  ensures [C17] value: v == (ok ? t.nodes[rev(s)].value : zero(T))
  safety [C17]
  inv for $i int, $n *trie_ :: 0 - 1 <= $i && $i < len(s) && ti(len(s) - 1 - $i) && $n != nil && $n == t.nodes[pre(rev(s), len(s) - 1 - $i)]

func (*goast.trie_[T]).FindByte(t, b) (v, ok)
  uses tries
  requires [C17] tries: tries()
  requires [C17] whole: t == nil || t.root == t
  hint pre(str(b), len(str(b))) == str(b)
  ensures [C17] success: ok <==> t != nil && t.nodes[str(b)] != nil
  ensures [C17] value: v == (ok ? t.nodes[str(b)].value : zero(T))
  safety [C17]
  inv for $i int, $n *trie_ :: 0 - 1 <= $i && $i < len(b) && ti($i + 1) && $n != nil && $n == t.nodes[pre(str(b), $i + 1)]

func (*goast.trie_[T]).FindByteReversely(t, b) (v, ok)
  uses tries
  requires [C17] tries: tries()
  requires [C17] whole: t == nil || t.root == t
  hint pre(rev(str(b)), len(rev(str(b)))) == rev(str(b))
  ensures [C17] success: ok <==> t != nil && t.nodes[rev(str(b))] != nil
  ensures [C17] value: v == (ok ? t.nodes[rev(str(b))].value : zero(T))
  safety [C17]
  inv for $i int, $n *trie_ :: 0 - 1 <= $i && $i < len(b) && ti(len(b) - 1 - $i) && $n != nil && $n == t.nodes[pre(rev(str(b)), len(b) - 1 - $i)]

func goast.newTrie(dict) (r)
  option noframes
  uses tries
  modifies trie_.value, trie_.next, trie_.root, trie_.path, trie_.nodes, MD<byte=>*goast.trie_[T]>, MV<byte=>*goast.trie_[T]>, mowner
  newghost self.root := self
  newghost self.path := ""
  newghost self.nodes := only(self)
  requires [C17] tries: tries()
  ensures [C17] tries: tries()
  ensures [C17] whole: r != nil && r.root == r
  ensures [C17] keys: forall k string :: {r.nodes[k]} r.nodes[k] != nil <==> k == "" || (exists key string :: {pre(key, len(k))} key in dict && len(k) <= len(key) && k == pre(key, len(k)))
  ensures [C17] values: forall k string :: {r.nodes[k]} r.nodes[k] != nil ==> r.nodes[k].value == (k in dict ? dict[k] : zero(T))
  safety [C17]
  inv for $s set[string], $n_ *trie_ :: tries() && $n_ != nil && $n_.root == $n_ && (forall k string :: {k in $s} k in $s ==> k in dict)
  inv for $s set[string], $n_ *trie_ :: forall k string :: {$n_.nodes[k]} $n_.nodes[k] != nil <==> k == "" || (exists key string :: {pre(key, len(k))} key in $s && len(k) <= len(key) && k == pre(key, len(k)))
  inv for $s set[string], $n_ *trie_ :: forall k string :: {k in $s} {$n_.nodes[k]} k in $s ==> $n_.nodes[k] != nil
  inv for $s set[string], $n_ *trie_ :: forall k string :: {$n_.nodes[k]} $n_.nodes[k] != nil ==> $n_.nodes[k].value == (k in $s ? dict[k] : zero(T))
