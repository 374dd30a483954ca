"""Types, sorts and values shared by the condition generator."""
import json, re
import z3

MOD = "github.com/yanun0323/goast"


class Unsupported(Exception):
    """A construct the generator has no rule for: becomes a failed obligation."""


def norm(s):
    s = s.replace(MOD + "/", "")
    s = re.sub(re.escape(MOD) + r"(?![\w/])", "goast", s)
    return s


class Ty:
    __slots__ = ("id", "kind", "s", "name", "elem", "key", "len", "fields", "under", "elems",
                 "params", "results", "variadic", "origin", "targs", "pkg", "methods")

    def __init__(self, kind, s, **kw):
        for a in Ty.__slots__:
            setattr(self, a, None)
        self.kind, self.s = kind, s
        for k, v in kw.items():
            setattr(self, k, v)

    def u(self):
        return self.under.u() if self.kind == "named" else self

    def __repr__(self):
        return "Ty(%s)" % self.s


OPAQUE = {"strings.Builder", "bytes.Buffer"}


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.packages = [norm(p) for p in d["packages"]]
        self.types = {}
        raw = d["types"]
        for j in raw:
            self.types[j["id"]] = Ty(j["kind"], norm(j["str"]), id=j["id"])
        for j in raw:
            t = self.types[j["id"]]
            T = lambda i: self.types[i]
            t.name = j.get("name")
            for a in ("elem", "key", "under", "params", "results"):
                if j.get(a) is not None:
                    setattr(t, a, T(j[a]))
            t.len = j.get("len")
            t.variadic = j.get("variadic")
            t.methods = j.get("methods")
            if j.get("origin"):
                t.origin = norm(j["origin"])
            if j.get("pkg"):
                t.pkg = norm(j["pkg"])
            if j.get("targs"):
                t.targs = [T(i) for i in j["targs"]]
            if j["kind"] == "struct":
                t.fields = [(f["name"], T(f["type"])) for f in (j.get("fields") or [])]
            if j["kind"] == "tuple":
                t.elems = [T(i) for i in (j.get("elems") or [])]
        for t in self.types.values():
            self.canon(t)
        self.by_str = {}
        for t in self.types.values():
            self.by_str.setdefault(t.s, t)
        self.funcs = {}
        for f in d["funcs"]:
            f["name"] = norm(f["name"])
            if f.get("origin"):
                f["origin"] = norm(f["origin"])
            if f.get("parent"):
                f["parent"] = norm(f["parent"])
            g = self.funcs.get(f["name"])
            if g is not None and g["blocks"] and not g.get("origin") and f.get("origin"):
                continue      # an instance wrapper that has the name of its generic function
            self.funcs[f["name"]] = f
        self._fixup()
        self._objects()

    def canon(self, t):
        """function types are written without the names of parameters and results"""
        if t.kind == "named" or "func(" not in t.s:
            return t.s
        if t.kind == "func":
            ps = [self.canon(x) for x in (t.params.elems or [])] if t.params else []
            if t.variadic and ps:
                ps[-1] = "..." + ps[-1][2:]
            rs = [self.canon(x) for x in (t.results.elems or [])] if t.results else []
            t.s = "func(%s)" % ", ".join(ps) + ("" if not rs else " " + rs[0] if len(rs) == 1 else " (%s)" % ", ".join(rs))
        elif t.kind == "pointer":
            t.s = "*" + self.canon(t.elem)
        elif t.kind == "slice":
            t.s = "[]" + self.canon(t.elem)
        elif t.kind == "map":
            t.s = "map[%s]%s" % (self.canon(t.key), self.canon(t.elem))
        return t.s

    def _fixup(self):
        for f in self.funcs.values():
            for b in f["blocks"]:
                b["instrs"] = [i for i in b["instrs"] if i is not None]
                for i in b["instrs"]:
                    for v in walkvals(i):
                        if v["k"] in ("func", "global"):
                            v["n"] = norm(v["n"])
            for p in f.get("params") or []:
                pass
            f["params"] = f.get("params") or []
            f["free"] = f.get("freevars") or f.get("free") or []

    def _objects(self):
        """Struct types that live in the heap and are shared through pointers."""
        obs = set()

        def ptr(t):
            if t.kind == "pointer" and t.elem.kind == "named" and t.elem.u().kind == "struct" \
                    and t.elem.s not in OPAQUE:
                obs.add(t.elem.origin or t.elem.s)

        for f in self.funcs.values():
            if f["synthetic"] or f.get("parent"):
                continue
            sig = self.types[f["sig"]]
            for t in (sig.params.elems or []) + (sig.results.elems or []):
                ptr(t)
            for p in f["params"]:
                ptr(self.types[p["t"]])
        for t in self.types.values():
            if t.kind == "struct":
                for _, ft in t.fields:
                    ptr(ft)
            if t.kind in ("map", "slice"):
                ptr(t.elem)
        self.objects = obs

    def ty(self, i):
        return self.types[i]


def walkvals(i):
    out = []

    def rec(x):
        if isinstance(x, dict):
            if "k" in x and isinstance(x["k"], str):
                out.append(x)
            else:
                for v in x.values():
                    rec(v)
        elif isinstance(x, list):
            for v in x:
                rec(v)
    for k, v in i.items():
        if k in ("op", "pos", "reg", "t", "tok", "comment"):
            continue
        rec(v)
    return out


# ---------------------------------------------------------------- sorts
Str = z3.DeclareSort("Str")
SliceD = z3.Datatype("SliceD")
# where a slice starts in its array: opaque, so that matching stays syntactic
Off = z3.DeclareSort("Off")
off0 = z3.Const("off0", Off)
SliceD.declare("mkslice", ("s_arr", z3.IntSort()), ("s_off", Off),
               ("s_len", z3.IntSort()), ("s_cap", z3.IntSort()))
SliceD = SliceD.create()
_arr = {}
_tp = {}


def sort_of(t):
    k = t.kind
    if k == "named":
        if t.s in OPAQUE:
            return Str
        return sort_of(t.under)
    if k == "basic":
        n = t.name
        if n in ("bool", "untyped bool"):
            return z3.BoolSort()
        if n in ("string", "untyped string"):
            return Str
        if n.startswith(("int", "uint", "byte", "rune", "untyped int", "untyped rune", "untyped nil", "invalid")):
            return z3.IntSort()
        raise Unsupported("basic type " + n)
    if k in ("pointer", "interface", "map", "func", "chan"):
        return z3.IntSort()
    if k == "slice":
        return SliceD
    if k == "array":
        es = sort_of(t.elem)
        if t.len > 8:
            raise Unsupported("array type %s" % t.s)
        key = (t.len, es.name())
        if key not in _arr:
            d = z3.Datatype("Arr%d_%s" % key)
            d.declare("mk", *[("e%d" % i, es) for i in range(t.len)])
            _arr[key] = d.create()
        return _arr[key]
    if k == "tparam":
        if t.s not in _tp:
            _tp[t.s] = z3.DeclareSort("TP_" + re.sub(r"\W", "_", t.s))
        return _tp[t.s]
    if k == "struct" and not t.fields:
        return z3.IntSort()
    raise Unsupported("sort of type " + t.s)


def is_ref(t):
    return t.u().kind in ("pointer", "map", "interface", "chan")


# ---------------------------------------------------------------- values
class Z:
    """A z3 term with its Go type."""
    __slots__ = ("t", "ty")

    def __init__(self, t, ty):
        self.t, self.ty = t, ty

    def __repr__(self):
        return "Z(%s:%s)" % (self.t, self.ty.s)


class SliceV:
    __slots__ = ("arr", "off", "len", "cap", "ty")

    def __init__(self, arr, off, ln, cap, ty):
        self.arr, self.off, self.len, self.cap, self.ty = arr, off, ln, cap, ty

    def __repr__(self):
        return "SliceV(%s,%s,%s,%s)" % (self.arr, self.off, self.len, self.cap)


class StructV:
    __slots__ = ("fs", "ty")

    def __init__(self, fs, ty):
        self.fs, self.ty = list(fs), ty


class TupleV:
    __slots__ = ("vs",)

    def __init__(self, vs):
        self.vs = list(vs)


class ClosureV:
    __slots__ = ("fn", "binds", "ty", "bound")

    def __init__(self, fn, binds, ty):
        self.fn, self.binds, self.ty = fn, binds, ty


class AddrV:
    """kind: cell (id, path) | field (heap, ref) | elem (heap, arr, idx) | global (name)"""
    __slots__ = ("kind", "a", "b", "c", "ty", "nil")

    def __init__(self, kind, a, b=None, c=None, ty=None, nil=None):
        self.kind, self.a, self.b, self.c, self.ty, self.nil = kind, a, b, c, ty, nil


class MapConst:
    """A map whose whole content is known: a global initialised once and never written."""
    __slots__ = ("items", "ty", "name")

    def __init__(self, items, ty, name=""):
        self.items, self.ty, self.name = items, ty, name


class IterV:
    __slots__ = ("kind", "x", "cell", "ty")

    def __init__(self, kind, x, cell, ty):
        self.kind, self.x, self.cell, self.ty = kind, x, cell, ty


_cnt = [0]


def fresh_name(p):
    _cnt[0] += 1
    return "%s!%d" % (p, _cnt[0])


def fresh(p, sort):
    return z3.Const(fresh_name(p), sort)


# ---------------------------------------------------------------- strings
slen = z3.Function("slen", Str, z3.IntSort())
sat = z3.Function("sat", Str, z3.IntSort(), z3.IntSort())
scat = z3.Function("scat", Str, Str, Str)
ssub = z3.Function("ssub", Str, z3.IntSort(), z3.IntSort(), Str)
sdiff = z3.Function("sdiff", Str, Str, z3.IntSort())
sbyte = z3.Function("sbyte", z3.IntSort(), Str)
rwidth = z3.Function("rwidth", Str, z3.IntSort(), z3.IntSort())
rcode = z3.Function("rcode", Str, z3.IntSort(), z3.IntSort())
# bytes of the backing array content from an offset, as a string
AI = z3.ArraySort(z3.IntSort(), z3.IntSort())
idx = z3.Function("idx", Off, z3.IntSort(), z3.IntSort())
pos = z3.Function("pos", Off, z3.IntSort())
suboff = z3.Function("suboff", Off, z3.IntSort(), Off)


def ix(off, i):
    """position of element i of a slice that starts at off"""
    i = z3.simplify(i)
    return idx(off, i)


def reoff(off, lo):
    lo = z3.simplify(lo)
    if z3.is_int_value(lo) and lo.as_long() == 0:
        return off
    return suboff(off, lo)


sbytes = z3.Function("sbytes", AI, Off, z3.IntSort(), Str)


def string_axioms():
    a, b = z3.Consts("a b", Str)
    i, j, k, c = z3.Ints("i j k c")
    A = z3.Const("A", AI)
    o = z3.Const("o", Off)
    F = z3.ForAll
    I = z3.Implies
    And = z3.And
    return [
        F([a], slen(a) >= 0, patterns=[slen(a)]),
        F([a, i], And(sat(a, i) >= 0, sat(a, i) <= 255), patterns=[sat(a, i)]),
        F([a, b], slen(scat(a, b)) == slen(a) + slen(b), patterns=[scat(a, b)]),
        F([a, b, i], I(And(0 <= i, i < slen(a)), sat(scat(a, b), i) == sat(a, i)),
          patterns=[sat(scat(a, b), i)]),
        F([a, b, i], I(And(slen(a) <= i, i < slen(a) + slen(b)), sat(scat(a, b), i) == sat(b, i - slen(a))),
          patterns=[sat(scat(a, b), i)]),
        F([a, i, j], I(And(0 <= i, i <= j, j <= slen(a)), slen(ssub(a, i, j)) == j - i),
          patterns=[ssub(a, i, j)]),
        F([a, i, j, k], I(And(0 <= i, i <= j, j <= slen(a), 0 <= k, k < j - i), sat(ssub(a, i, j), k) == sat(a, i + k)),
          patterns=[sat(ssub(a, i, j), k)]),
        F([c], I(And(0 <= c, c < 128), And(slen(sbyte(c)) == 1, sat(sbyte(c), 0) == c)), patterns=[sbyte(c)]),
        F([A, o, j], I(j >= 0, slen(sbytes(A, o, j)) == j), patterns=[sbytes(A, o, j)]),
        pos(off0) == 0,
        F([o, j], idx(o, j) == pos(o) + j, patterns=[idx(o, j)]),
        F([o, j], pos(suboff(o, j)) == pos(o) + j, patterns=[suboff(o, j)]),
        F([o, j, k], idx(suboff(o, j), k) == idx(o, j + k), patterns=[idx(suboff(o, j), k)]),
        F([A, o, j, k], I(And(0 <= k, k < j), sat(sbytes(A, o, j), k) == A[idx(o, k)]),
          patterns=[sat(sbytes(A, o, j), k)]),
        F([a, i], And(rwidth(a, i) >= 1, rwidth(a, i) <= 4,
                      I(And(0 <= i, i < slen(a)), i + rwidth(a, i) <= slen(a)),
                      I(sat(a, i) < 128, And(rwidth(a, i) == 1, rcode(a, i) == sat(a, i))),
                      I(sat(a, i) >= 128, rcode(a, i) >= 128)),
          patterns=[rwidth(a, i)]),
    ]


_lits = {}


def lit(bs):
    bs = bytes(bs)
    if bs not in _lits:
        nm = "lit_" + "".join(chr(x) if chr(x).isalnum() and x < 128 else "_%02x" % x for x in bs)
        _lits[bs] = z3.Const(nm, Str)
    return _lits[bs]


_lit_by_id = {}


def lit_of(term):
    """bytes of a literal term or None"""
    if z3.is_const(term) and term.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        n = term.decl().name()
        if n.startswith("lit_"):
            for b, t in _lits.items():
                if t.eq(term):
                    return b
    return None


def lit_axioms(only=None):
    out = []
    for b, t in _lits.items():
        if only is not None and t.decl().name() not in only:
            continue
        out.append(slen(t) == len(b))
        for i, x in enumerate(b[:24]):
            out.append(sat(t, i) == x)
    ts = [t for t in _lits.values() if only is None or t.decl().name() in only]
    if len(ts) > 1:
        out.append(z3.Distinct(*ts))
    return out


def consts_in(terms):
    """names of the uninterpreted constants in the terms"""
    seen, names, st = set(), set(), list(terms)
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            st.append(t.body())
            for k in range(t.num_patterns()):
                st.append(t.pattern(k))
            continue
        if z3.is_app(t):
            if t.num_args() == 0:
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    names.add(t.decl().name())
            else:
                st.extend(t.children())
    return names
