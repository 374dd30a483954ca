// helper: byte predicates and slices
func helper.HasPrefix(s, prefix) (r)
  ensures exact: r <==> (len(prefix) <= len(s) && (forall i int :: 0 <= i && i < len(prefix) ==> s[i] == prefix[i]))
  safety [C16,C26]
  inv for $k int :: 0 <= $k && $k <= len(prefix) && (forall j int :: 0 <= j && j < $k ==> s[j] == prefix[j])

func helper.HasSuffix(s, suffix) (r)
  ensures exact: r <==> (len(suffix) <= len(s) && (forall i int :: 0 <= i && i < len(suffix) ==> s[len(s)-len(suffix)+i] == suffix[i]))
  safety [C16,C26]
  inv for $k int :: 0 - 1 <= $k && $k <= len(suffix) && (forall j int :: 0 <= j && j <= $k && j < len(suffix) ==> s[len(s)-len(suffix)+j] == suffix[j])

func helper.AppendUnrepeatable(slice, elems) (r)
  modifies E<T>
  let n = len(slice)
  let m = len(elems)
  let d = (n > 0 && m > 0 && slice[n-1] == elems[0]) ? 1 : 0
  ensures [C16] length: len(r) == n + m - d
  ensures [C16] kept: forall i int :: 0 <= i && i < n ==> r[i] == old(slice[i])
  ensures [C16] added: forall i int :: n <= i && i < n + m - d ==> r[i] == old(elems[i - n + d])
  ensures [C16] argument-kept: forall i int :: 0 <= i && i < n ==> slice[i] == old(slice[i])
  safety [C16,C26]
