// the splitting of a text into scopes
group scopes
lemma catsub: forall T string, a int, b int, d int :: {cat(sub(T, a, b), sub(T, b, d))} 0 <= a && a <= b && b <= d && d <= len(T) ==> cat(sub(T, a, b), sub(T, b, d)) == sub(T, a, d)
// the kind of scope that a piece begins when it is the first of its line
pure lead(s string, a int, b int) = len(s) >= 2 && s[0] == a && s[1] == b
logic skindOf(string) string
// piece j of the pieces from c on, cut at q, begins a scope
logic beg(string, seq[int], int, int) bool
axiom beg: forall T string, q seq[int], c int, j int :: {beg(T, q, c, j)} beg(T, q, c, j) <==> ((j <= c || nl(T, q[j-1]) != nl(T, q[j])) && skindOf(sub(T, q[j], q[j+1])) != "")
// the next beginning behind piece j, or the end n
logic nb(string, seq[int], int, int, int) int
axiom nb: forall T string, q seq[int], c int, j int, n int, k int :: {nb(T, q, c, j, n), mki(k)} j < k && k <= j + 1 ==> nb(T, q, c, j, n) == (k >= n || beg(T, q, c, k) ? k : nb(T, q, c, k, n))
pure rising(T string, q seq[int], c int, n int) = (forall i int :: {q[i]} c <= i && i <= n ==> 0 <= q[i] && q[i] <= len(T)) && (forall i int, k int :: {q[i], q[k]} c <= i && k <= n && i < k && k <= i + 1 ==> q[i] <= q[k])
// texts X[0], X[1] and so on, one behind the other
logic joined(seq[string], int) string
axiom joined0: forall X seq[string], k int :: {joined(X, k)} k <= 0 ==> joined(X, k) == ""
axiom joined1: forall X seq[string], k int, h int :: {joined(X, k), mki(h)} k > 0 && k - 1 <= h && h < k ==> joined(X, k) == cat(joined(X, h), X[h])
// X[i] is the text from P[i] to P[i+1]
logic sliced(string, seq[int], seq[string], int) bool
axiom sliced: forall T string, P seq[int], X seq[string], n int :: {sliced(T, P, X, n)} sliced(T, P, X, n) <==> (0 <= P[0] && P[0] <= len(T) && (forall i int :: {X[i]} 0 <= i && i < n ==> P[i] <= P[i+1] && P[i+1] <= len(T) && X[i] == sub(T, P[i], P[i+1])))
lemma joinedAll by induction on (k) with mki(k - 1) && joined(X, k) == "" && P[k - 1] == 0 && X[k - 1] == "" && sliced(T, P, X, k - 1): forall k int, T string, P seq[int], X seq[string] :: {sliced(T, P, X, k), joined(X, k)} 0 <= k && sliced(T, P, X, k) ==> P[0] <= P[k] && P[k] <= len(T) && joined(X, k) == sub(T, P[0], P[k])
group

group scopeKinds
axiom skindOf: forall s string :: {skindOf(s)} skindOf(s) == (s == "package" ? "package" : lead(s, 47, 47) ? "//" : lead(s, 47, 42) ? "/*" : s == "import" ? "import" : s == "var" ? "var" : s == "const" ? "const" : s == "type" ? "type" : s == "func" ? "func" : "")
group

// the text from piece j to the next beginning, piece by piece
group upTo
logic upTo(string, seq[int], int, int, int) string
axiom upTo: forall T string, q seq[int], c int, j int, n int, k int :: {upTo(T, q, c, j, n), mki(k)} j < k && k <= j + 1 ==> upTo(T, q, c, j, n) == (k >= n || beg(T, q, c, k) ? sub(T, q[j], q[k]) : cat(sub(T, q[j], q[k]), upTo(T, q, c, k, n)))
lemma upToSub by induction on (n - j) using scopes, marks with mki(j + 1) && upTo(T, q, c, j, n) == "": forall T string, q seq[int], c int, j int, n int :: {upTo(T, q, c, j, n)}
  c <= j && j < n && rising(T, q, c, n) ==> j < nb(T, q, c, j, n) && nb(T, q, c, j, n) <= n && q[j] <= q[nb(T, q, c, j, n)] && q[nb(T, q, c, j, n)] <= len(T) && upTo(T, q, c, j, n) == sub(T, q[j], q[nb(T, q, c, j, n)])
group
