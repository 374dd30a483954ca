// files: what the library writes and reads. disk: what stands under each path
ghostvar disk dict[string]
ghostvar dirs dict[bool]
ghostvar failures int
// which path an open file has, which path a directory text names
logic pathOf(int) string
logic dirOf(string) string
logic baseOf(string) string
logic extOf(string) string
// gofmt and goimports, as functions of the text
logic fmtOk(string) bool
logic fmtOf(string) string
logic impOk(string, string) bool
logic impOf(string, string) string
// a file that can be opened, that is missing, and an error that says the file is missing
logic openable(string) bool
logic missing(string) bool
logic readable(string) bool
logic notExist(int) bool

// trusted: the standard library and golang.org/x/tools/imports
extern go/format.Source(src) (out, err)
  ensures (err == nil <==> fmtOk(str(src))) && (err == nil ==> str(out) == fmtOf(str(src)))
extern golang.org/x/tools/imports.Process(name, src, opt) (out, err)
  ensures (err == nil <==> impOk(name, str(src))) && (err == nil ==> str(out) == impOf(name, str(src)))
extern path/filepath.Dir(p) (r)
  ensures r == dirOf(p)
extern path/filepath.Base(p) (r)
  ensures r == baseOf(p)
extern path/filepath.Ext(p) (r)
  ensures r == extOf(p)
extern os.MkdirAll(dir, perm) (err)
  ghost dirs := err == nil ? store(dirs, dir, true) : dirs
  ghost failures := err == nil ? failures : failures + 1
extern os.Create(name) (f, err)
  requires [C21] directory-first: dirs[dirOf(name)]
  ensures err == nil ==> f != nil && pathOf(int(f)) == name
  ghost disk := err == nil ? store(disk, name, "") : disk
  ghost failures := err == nil ? failures : failures + 1
extern (*os.File).Write(f, b) (n, err)
  requires f != nil
  ghost disk := err == nil ? store(disk, pathOf(int(f)), cat(disk[pathOf(int(f))], str(b))) : disk
  ghost failures := err == nil ? failures : failures + 1
extern (*os.File).Close(f) (err)
extern os.Open(name) (f, err)
  ensures (err == nil <==> openable(name)) && (err != nil ==> (notExist(int(err)) <==> missing(name)))
  ensures err == nil ==> f != nil && pathOf(int(f)) == name
extern io.ReadAll(f) (out, err)
  ensures (err == nil <==> readable(pathOf(int(f)))) && (err == nil ==> str(out) == disk[pathOf(int(f))])
extern errors.New(text) (err)
  ensures err != nil
extern fmt.Errorf(text, args) (err)
  ensures err != nil
extern fmt.Sprintf(text, args) (r)
extern log/slog.Error(text, args)
extern errors.Is(err, target) (r)
  ensures target == os.ErrNotExist ==> (r <==> notExist(int(err)))

pure goPath(f string) = len(f) >= 3 && f[len(f)-3] == 46 && f[len(f)-2] == 103 && f[len(f)-1] == 111 ? f : cat(f, ".go")
pure saved(path string, text string, auto bool) = auto ? (impOk(path, text) ? impOf(path, text) : text) : (fmtOk(text) ? fmtOf(text) : text)

group cats
lemma catEmpty: forall a string :: {cat("", a)} cat("", a) == a
group

func helper.SaveFile(file, data, auto) (err)
  uses cats
  modifies disk, dirs, failures
  let text = str(data)
  let path = goPath(file)
  let a = len(auto) != 0 && auto[0]
  ensures [C21] empty: len(data) == 0 ==> err != nil && disk == old(disk)
  ensures [C21] failure: failures != old(failures) ==> err != nil
  ensures [C21] success: len(data) != 0 && failures == old(failures) ==> err == nil
  ensures [C21] written: err == nil ==> disk == store(old(disk), path, saved(path, text, a)) && dirs[dirOf(path)]
  safety [C21]

func helper.ReadFile(file) (out, err)
  modifies nothing
  let path = goPath(file)
  ensures [C21] unopenable: !openable(path) ==> err != nil && (notExist(int(err)) <==> missing(path))
  ensures [C21] unreadable: !readable(path) || !fmtOk(disk[path]) ==> err != nil
  ensures [C21] read: openable(path) && readable(path) && fmtOk(disk[path]) ==> err == nil && str(out) == fmtOf(disk[path])
  safety [C21]

group texts
// the texts of the nodes of a chain, of the scopes of a list, put behind s
logic nodesText(seq[*Node], seq[string], *Node, string) string
axiom nodesText: forall N seq[*Node], T seq[string], x *Node, s string :: {nodesText(N, T, x, s)}
   nodesText(N, T, x, s) == (x == nil ? s : nodesText(N, T, ref(N[x]), cat(s, T[x])))
logic scopesText(seq[Scope], seq[*Node], seq[*Node], seq[string], int, int, string) string
axiom scopesText0: forall m seq[Scope], D seq[*Node], N seq[*Node], T seq[string], lo int, hi int, s string :: {scopesText(m, D, N, T, lo, hi, s)}
   lo >= hi ==> scopesText(m, D, N, T, lo, hi, s) == s
axiom scopesText1: forall m seq[Scope], D seq[*Node], N seq[*Node], T seq[string], lo int, hi int, s string :: {scopesText(m, D, N, T, lo, hi, s), m[lo]}
   lo < hi ==> scopesText(m, D, N, T, lo, hi, s) == scopesText(m, D, N, T, lo + 1, hi, nodesText(N, T, ref(D[m[lo]]), s))
group
pure chainText(x *Node, s string) = nodesText(heap(Node, next), heap(Node, text), x, s)
pure listText(m seq[Scope], lo int, hi int, s string) = scopesText(m, heap(scopeStruct, node), heap(Node, next), heap(Node, text), lo, hi, s)

func (*goast.ast).Save(f, file, auto) (err)
  uses texts
  modifies disk, dirs, failures
  requires [C21] scopes: f != nil ==> scopesIn(elems(f.scope), off(f.scope), off(f.scope) + len(f.scope))
  let text = f == nil ? "" : listText(elems(f.scope), off(f.scope), off(f.scope) + len(f.scope), "")
  let path = goPath(file)
  let a = len(auto) != 0 && auto[0]
  ensures [C21] empty: len(text) == 0 ==> err != nil && disk == old(disk)
  ensures [C21] failure: failures != old(failures) ==> err != nil
  ensures [C21] success: len(text) != 0 && failures == old(failures) ==> err == nil
  ensures [C21] written: err == nil ==> disk == store(old(disk), path, saved(path, text, a)) && dirs[dirOf(path)]
  safety [C21]
  inv [C21] for $i int, $b bytes.Buffer :: f == nil ==> $i == 0 - 1 && $b == ""
  inv [C21] for $i int, $b bytes.Buffer :: f != nil ==> 0 - 1 <= $i && $i < len(f.scope) && listText(elems(f.scope), off(f.scope) + $i + 1, off(f.scope) + len(f.scope), $b) == listText(elems(f.scope), off(f.scope), off(f.scope) + len(f.scope), "")
  inv [C21] for $x *Node, $b bytes.Buffer :: chainText($x, $b) == chainText(entry($x), entry($b))
