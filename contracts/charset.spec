// charset: sets
func (charset.Set[T]).Contain(cs, key) (r)
  ensures [C18,C23] member: r <==> (cs != nil && key in cs)
  safety [C18,C26]

func charset.New(chars) (r)
  modifies nothing
  ensures [C18,C23] new: r != nil && isnew(r)
  ensures [C18,C23] sound: forall k T :: {k in r} k in r ==> (exists i int :: 0 <= i && i < len(chars) && chars[i] == k)
  ensures [C18,C23] complete: forall i int :: {chars[i]} 0 <= i && i < len(chars) ==> chars[i] in r
  safety [C18,C26]
  inv for $i int :: 0 - 1 <= $i && $i < len(chars)
  inv for $i int, $m_ Set[T] :: forall j int :: 0 <= j && j <= $i && j < len(chars) ==> chars[j] in $m_
  inv for $i int, $m_ Set[T] :: forall k T :: {k in $m_} k in $m_ ==> (exists j int :: 0 <= j && j <= $i && j < len(chars) && chars[j] == k)

func charset.NewSlice(chars) (r)
  modifies nothing
  ensures [C18,C23] new: r != nil && isnew(r)
  ensures [C18,C23] sound: forall k T :: {k in r} k in r ==> (exists i int, j int :: 0 <= i && i < len(chars) && 0 <= j && j < len(chars[i]) && chars[i][j] == k)
  ensures [C18,C23] complete: forall i int, j int :: 0 <= i && i < len(chars) && 0 <= j && j < len(chars[i]) ==> chars[i][j] in r
  safety [C18,C26]
  inv for $i int :: 0 - 1 <= $i && $i < len(chars)
  inv for $i int, $s_ []T :: 0 - 1 <= $i && $i < len($s_)
  inv for $i_ int, $m_ Set[T] :: forall i int, j int :: 0 <= i && i <= $i_ && i < len(chars) && 0 <= j && j < len(chars[i]) ==> chars[i][j] in $m_
  inv for $i_ int, $m_ Set[T] :: forall i int, j int :: 0 <= i && i < $i_ && i < len(chars) && 0 <= j && j < len(chars[i]) ==> chars[i][j] in $m_
  inv for $j int, $s_ []T, $m_ Set[T] :: forall j int :: 0 <= j && j <= $j && j < len($s_) ==> $s_[j] in $m_
  inv for $m_ Set[T] :: forall k T :: {k in $m_} k in $m_ ==> (exists i int, j int :: 0 <= i && i < len(chars) && 0 <= j && j < len(chars[i]) && chars[i][j] == k)

// the predefined sets
fact [C18] separators: forall b byte :: b in charset.SeparatorCharset <==> sepByte(b)
fact [C18] digits: forall b byte :: b in charset.NumberCharset <==> digitByte(b)
fact [C18] symbols: forall b byte :: b in charset.GolangSymbol <==> symByte(b)
fact [C18] basic-types: forall s string :: s in charset.GolangBasicType <==> basicType(s)
fact [C18] keywords: forall s string :: s in charset.GolangKeywords <==> (otherKeyword(s) || s == "func" || s == "interface" || s == "map" || s == "struct" || s == "chan" || s == "package" || s == "const" || s == "type" || s == "import" || s == "var")
