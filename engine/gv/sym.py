"""Symbolic execution of go/ssa functions against contracts: generates the
verification conditions."""
import re
import z3
from .base import *
from .ginit import GInit, Obj, Ptr, Opaque
from . import spec as S

INT = Ty("basic", "int", name="int")
BOOL = Ty("basic", "bool", name="bool")
STRING = Ty("basic", "string", name="string")
BYTE = Ty("basic", "byte", name="uint8")
I = z3.IntVal


def raw(t, sort):
    return Ty("raw", "raw", elem=t)


def T_and(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    return z3.BoolVal(True) if not xs else xs[0] if len(xs) == 1 else z3.And(*xs)


class State:
    __slots__ = ("cells", "ctypes", "heaps", "ghosts", "A", "pc", "wr", "trace")

    def __init__(self):
        self.cells, self.ctypes, self.heaps, self.ghosts = {}, {}, {}, {}
        self.A = None
        self.pc = []
        self.wr = None
        self.trace = ()

    def copy(self):
        s = State()
        s.cells, s.ctypes = dict(self.cells), dict(self.ctypes)
        s.heaps, s.ghosts = dict(self.heaps), dict(self.ghosts)
        s.A = self.A
        s.pc = list(self.pc)
        s.wr = self.wr
        s.trace = self.trace
        return s


class Ob:
    """One proof obligation."""
    __slots__ = ("name", "labels", "pc", "goal", "where", "kind", "fn", "result", "ms", "backend")

    def __init__(self, name, labels, pc, goal, where, kind):
        self.name, self.labels, self.pc, self.goal, self.where, self.kind = name, labels, pc, goal, where, kind
        self.result = None
        self.ms = 0
        self.backend = ""


class Loop:
    def __init__(self, key):
        self.key = key
        self.cands = []       # [guard, text, entry_formula, instantiate-fn]
        self.pc0 = None
        self.still = set()
        self.backs = []       # (pc, [formula per cand])


class Verifier:
    def __init__(self, prog, specs, prop, ginit, opts=None):
        self.p, self.specs, self.prop = prog, specs, prop
        self.g = ginit
        self.opts = opts or {}
        self.A0 = z3.Int("A0")
        self.base = {}             # heap name -> (const, sort)
        self.base_facts = []
        self.base_seen = set()
        self.fresh0 = set()
        self.obs = []
        self.loops = []
        self.closures = []
        self.funcsyms = {}
        self.depth = 0
        self.solver = None
        self.feas_calls = 0
        self.contracts_used = set()
        self.externs_used = set()
        self.inlined = set()
        self.lemmas_used = set()
        self.assumed_notes = set()
        self.gobjs = {}
        self.gobj_list = []
        self.fields_of = []
        self.frozen = frozen_globals(prog)
        self.modsets = Modsets(prog, specs, self)
        self._gvals = {}
        self._init_gobjs()
        for x in self.fields_of:
            self.gobj_facts(*x)
        self.extra_axioms = []
        self.mergejoins = False
        self.vacuity = []

    # ------------------------------------------------------------ global objects
    def _init_gobjs(self):
        def reg(o):
            if id(o) not in self.gobjs:
                self.gobjs[id(o)] = len(self.gobj_list) + 1
                self.gobj_list.append(o)
                visit(o.v)

        def visit(v):
            if isinstance(v, Ptr) and v.kind == "obj":
                reg(v.base)
            elif isinstance(v, list):
                for x in v:
                    visit(x)
            elif isinstance(v, dict):
                for k, (kk, vv) in v.items():
                    visit(kk)
                    visit(vv)
        for n in sorted(self.g):
            visit(self.g[n].v)
        self.opq = {}

    def conc(self, v, ty, name=""):
        """A concrete init-time value as a symbolic one."""
        u = ty.u()
        k = u.kind
        if k == "basic":
            if isinstance(v, bool):
                return Z(z3.BoolVal(v), ty)
            if isinstance(v, bytes):
                return Z(lit(v), ty)
            if isinstance(v, int):
                return Z(I(v), ty)
        if k == "array":
            srt = sort_of(ty)
            return Z(srt.mk(*[self.term(self.conc(x, u.elem)) for x in v]), ty)
        if k == "pointer":
            if v is None:
                return Z(I(0), ty)
            if isinstance(v, Ptr) and v.kind == "obj":
                return Z(I(self.gobjs[id(v.base)]), ty)
        if k == "map":
            if v is None:
                return Z(I(0), ty)
            items = [(self.conc(kk, u.key), self.conc(vv, u.elem)) for kk, vv in v.values()]
            return MapConst(items, ty, name)
        if k == "struct":
            return StructV([self.conc(x, ft) for x, (_, ft) in zip(v, u.fields)], ty)
        if k == "interface":
            if v is None:
                return Z(I(0), ty)
            if isinstance(v, Opaque):
                if id(v) not in self.opq:
                    self.opq[id(v)] = 1000 + len(self.opq)
                return Z(I(self.opq[id(v)]), ty)
        raise Unsupported("initial value of type " + ty.s)

    def global_value(self, name, ty):
        if name in self._gvals:
            return self._gvals[name]
        if name not in self.frozen:
            raise Unsupported("global %s is written after initialisation" % name)
        if name in self.g:
            v = self.conc(self.g[name].v, ty, name)
        else:
            v = self.zero(ty)
        self._gvals[name] = v
        return v

    # ------------------------------------------------------------ values
    def zero(self, t):
        u = t.u()
        k = u.kind
        if t.s in OPAQUE:
            return Z(lit(b""), t)
        if k == "slice":
            return SliceV(I(0), off0, I(0), I(0), t)
        if k == "struct":
            return StructV([self.zero(ft) for _, ft in u.fields], t)
        if k == "basic":
            if u.name == "bool":
                return Z(z3.BoolVal(False), t)
            if u.name == "string":
                return Z(lit(b""), t)
            return Z(I(0), t)
        if k == "array":
            s = sort_of(t)
            return Z(s.mk(*[self.term(self.zero(u.elem)) for _ in range(u.len)]), t)
        if k == "tparam":
            return Z(z3.Const("zero_" + t.s.replace(":", "_"), sort_of(t)), t)
        return Z(I(0), t)

    def term(self, v):
        """value -> z3 term (packing)"""
        if isinstance(v, Z):
            return v.t
        if isinstance(v, SliceV):
            return SliceD.mkslice(v.arr, v.off, v.len, v.cap)
        if isinstance(v, ClosureV):
            for i, c in enumerate(self.closures):
                if c is v or (c.fn == v.fn and c.binds == v.binds):
                    return I(10000 + i)
            self.closures.append(v)
            return I(10000 + len(self.closures) - 1)
        if isinstance(v, StructV) and not v.fs:
            return I(0)
        if isinstance(v, MapConst):
            raise Unsupported("constant map stored in memory")
        raise Unsupported("packing %s" % type(v).__name__)

    def val(self, t, ty):
        """z3 term -> value (unpacking)"""
        if ty.u().kind == "slice":
            if z3.is_app(t) and t.decl().name() == "mkslice":
                a = t.children()
            else:
                a = [SliceD.s_arr(t), SliceD.s_off(t), SliceD.s_len(t), SliceD.s_cap(t)]
            return SliceV(*a, ty)
        if ty.u().kind == "struct" and ty.s not in OPAQUE:
            if not ty.u().fields:
                return StructV([], ty)
            raise Unsupported("struct value from memory")
        return Z(t, ty)

    def havoc(self, ty, name, st):
        """An arbitrary value of the type; adds what the type guarantees to st.pc."""
        if ty.kind in ("set", "raw", "real", "dict"):
            return Z(fresh(name, self.rsort(ty)), ty)
        u = ty.u()
        if ty.s in OPAQUE:
            return Z(fresh(name, Str), ty)
        if u.kind == "struct":
            return StructV([self.havoc(ft, name + "_" + fn, st) for fn, ft in u.fields], ty)
        if u.kind == "slice":
            v = SliceV(*[fresh(name + x, Off if x == "_off" else z3.IntSort()) for x in ("_arr", "_off", "_len", "_cap")], ty)
            st.pc.append(self.slice_ok(v, st))
            return v
        if u.kind == "tuple":
            return TupleV([self.havoc(t, name + "_%d" % i, st) for i, t in enumerate(u.elems or [])])
        v = Z(fresh(name, sort_of(ty)), ty)
        self.type_facts(v, st)
        return v

    def slice_ok(self, v, st):
        return z3.And(v.arr >= 0, v.arr < st.A, pos(v.off) >= 0, v.len >= 0, v.len <= v.cap,
                      z3.Implies(v.arr == 0, v.cap == 0))

    def type_facts(self, v, st):
        if isinstance(v, SliceV):
            st.pc.append(self.slice_ok(v, st))
            return
        if not isinstance(v, Z):
            return
        u = v.ty.u()
        if z3.is_int_value(v.t):
            return
        if u.kind in ("pointer", "map"):
            st.pc.append(z3.And(v.t >= 0, v.t < st.A))
        elif u.kind in ("interface", "func", "chan"):
            st.pc.append(v.t >= 0)
            if u.kind == "interface" and self.impl_of(v.ty):
                st.pc.append(v.t < st.A)
        elif u.kind == "basic":
            n = u.name
            if n in ("byte", "uint8"):
                st.pc.append(z3.And(v.t >= 0, v.t <= 255))
            elif n.startswith("uint"):
                st.pc.append(v.t >= 0)

    # ------------------------------------------------------------ heaps
    def hsort(self, name, ty=None):
        if name in self.base:
            return self.base[name][1]
        raise Unsupported("heap " + name)

    def field_heap(self, sname, fname, fty):
        n = "%s.%s" % (sname, fname)
        if n not in self.base:
            self._mkbase(n, z3.ArraySort(z3.IntSort(), sort_of(fty)), fty, fresh0=self.prop in self.specs.realfresh.get(n, ()))
            self.fields_of.append((n, sname, fname, fty))
            if hasattr(self, "_gvals"):
                self.gobj_facts(n, sname, fname, fty)
        return n

    def gobj_facts(self, n, sname, fname, fty):
        """what the fields of the objects made at initialisation hold, when nobody writes them later"""
        for k, o in enumerate(self.gobj_list):
            if o.ty.kind != "named" or not self.is_object(o.ty) or self.objname(o.ty) != sname or n in self.stored_fields():
                continue
            for i, (fn_, ft) in enumerate(o.ty.u().fields):
                if fn_ == fname:
                    try:
                        self.base_facts.append(("H_" + n, self.base[n][0][I(k + 1)] == self.term(self.conc(o.v[i], ft))))
                    except Unsupported:
                        pass

    def elem_heap(self, ety):
        n = "E<%s>" % self.tyname(ety)
        if n not in self.base:
            self._mkbase(n, z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), sort_of(ety))), ety, elem=True)
        return n

    def tyname(self, t):
        if t.kind == "basic" and t.name == "uint8":
            return "byte"
        return re.sub(r"tparam:", "", t.s)

    def map_heaps(self, mty):
        u = mty.u()
        n = "%s=>%s" % (self.tyname(u.key), self.tyname(u.elem))
        d, v = "MD<%s>" % n, "MV<%s>" % n
        if d not in self.base:
            ks, vs = sort_of(u.key), sort_of(u.elem)
            self._mkbase(d, z3.ArraySort(z3.IntSort(), z3.ArraySort(ks, z3.BoolSort())), None)
            self._mkbase(v, z3.ArraySort(z3.IntSort(), z3.ArraySort(ks, vs)), None, mapelem=(u, True))
        return d, v

    def _mkbase(self, n, sort, vty, elem=False, mapelem=None, fresh0=False):
        c = z3.Const("H_" + n, sort)
        if fresh0:
            self.fresh0.add(n)
        self.base[n] = (c, sort, vty, elem, mapelem)
        f = self.heap_typing(n, c, self.A0)
        if f is not None:
            self.base_facts.append(("H_" + n, f))

    def heap_typing(self, n, h, A):
        _, sort, vty, elem, mapelem = self.base[n]
        x, i = z3.Ints("x i")
        if n in self.fresh0:
            # ghost field that is 0 for what is not allocated yet
            return z3.ForAll([x], z3.And(z3.Implies(z3.Or(x >= A, x <= 0), h[x] == 0), h[x] >= 0, h[x] < A), patterns=[h[x]])
        if vty is not None:
            u = vty.u()
            isref = u.kind in ("pointer", "map") or (u.kind == "interface" and self.impl_of(vty))
            if isref:
                if elem:
                    return z3.ForAll([x, i], z3.And(h[x][i] >= 0, h[x][i] < A), patterns=[h[x][i]])
                return z3.ForAll([x], z3.And(h[x] >= 0, h[x] < A), patterns=[h[x]])
            if u.kind == "slice" and not elem:
                v = h[x]
                a, o, l, c = SliceD.s_arr(v), SliceD.s_off(v), SliceD.s_len(v), SliceD.s_cap(v)
                return z3.ForAll([x], z3.And(a >= 0, a < A, pos(o) >= 0, l >= 0, l <= c, z3.Implies(a == 0, c == 0)), patterns=[h[x]])
            if u.kind == "basic" and u.name in ("byte", "uint8"):
                if elem:
                    return z3.ForAll([x, i], z3.And(h[x][i] >= 0, h[x][i] <= 255), patterns=[h[x][i]])
                return z3.ForAll([x], z3.And(h[x] >= 0, h[x] <= 255), patterns=[h[x]])
        if mapelem:
            u, _ = mapelem
            if u.elem.u().kind in ("pointer", "map"):
                k = z3.Const("k", sort_of(u.key))
                return z3.ForAll([x, k], z3.And(h[x][k] >= 0, h[x][k] < A), patterns=[h[x][k]])
        return None

    def heap(self, st, n):
        return st.heaps.get(n, self.base[n][0])

    def set_heap(self, st, n, t):
        st.heaps[n] = t
        if st.wr is not None:
            st.wr.add(("heap", n))

    def objname(self, ty):
        """heap prefix of a struct type"""
        return re.sub(r"\[.*", "", (ty.origin or ty.s)).split(".")[-1]

    def is_object(self, ty):
        return ty.kind == "named" and (ty.origin or ty.s) in self.p.objects and (ty.pkg or "") in self.p.packages

    def impl_of(self, ity):
        """the only struct type of the repository that implements the interface"""
        u = ity.u()
        ms = u.methods or []
        if not ms or ity.kind != "named" or (ity.pkg or "") not in self.p.packages:
            return None
        c = getattr(self, "_impl", None)
        if c is None:
            c = self._impl = {}
        key = ity.origin or ity.s
        if key in c:
            return c[key]
        recv = {}
        for n in self.p.funcs:
            m = re.match(r"\(\*?([\w./]+?)(\[.*\])?\)\.(\w+)$", n)
            if m:
                recv.setdefault(m.group(1), {})[m.group(3)] = n
        hits = [r for r, d in recv.items() if all(x in d for x in ms)]
        c[key] = (hits[0], recv[hits[0]]) if len(hits) == 1 else None
        return c[key]

    # ------------------------------------------------------------ solver
    def add(self, st, f):
        if not z3.is_true(f):
            st.pc.append(f)

    def feasible(self, st):
        """False only if the path condition is certainly unsatisfiable."""
        if self.opts.get("nofeas"):
            return True
        self.feas_calls += 1
        s = z3.SolverFor("QF_AUFLIA") if False else z3.Solver()
        s.set("timeout", 300)
        s.set("smt.mbqi", False)
        s.set("smt.auto_config", False)
        for f in st.pc:
            if not has_quant(f):
                s.add(f)
        ks = [t for t in consts_in(st.pc) if t.startswith("lit_")]
        for f in lit_axioms(set(ks)):
            s.add(f)
        return s.check() != z3.unsat

    def oblige(self, st, name, goal, where, kind, labels=None):
        """Record an obligation and go on under the assumption that it holds."""
        if st.wr is not None:
            return
        if z3.is_true(z3.simplify(goal)):
            goal = z3.BoolVal(True)
        self.obs.append(Ob(name, labels, list(st.pc), goal, where, kind))
        self.add(st, goal)

    # ------------------------------------------------------------ safety
    def safety(self, st, goal, what, where):
        if st.wr is not None:
            return
        g = z3.simplify(goal)
        if z3.is_true(g):
            return
        if self.safety_on:
            self.obs.append(Ob("safety: " + what, None, list(st.pc), goal, where, "safety"))
        self.add(st, goal)


def has_quant(f):
    st, seen = [f], set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return True
        st.extend(t.children())
    return False


def frozen_globals(prog):
    """Package variables that nothing writes once the program is initialised: no
    store to them, no map update or field/element store through a value read from them
    (the latter is what the obligations of C24 check)."""
    written = set()
    names = set()
    for f in prog.funcs.values():
        isinit = f["name"].endswith(".init") or ".init#" in f["name"]
        for b in f["blocks"]:
            for i in b["instrs"]:
                for v in walkvals(i):
                    if v["k"] == "global":
                        names.add(v["n"])
                if isinit:
                    continue
                if i["op"] == "Store" and i["addr"]["k"] == "global":
                    written.add(i["addr"]["n"])
                elif i["op"] not in ("UnOp", "Store", "FieldAddr", "IndexAddr"):
                    # address of a global escaping
                    for v in walkvals(i):
                        if v["k"] == "global":
                            written.add(v["n"])
    return names - written


class Modsets:
    """Which heaps a function may write, transitively (names only)."""

    def __init__(self, prog, specs, ver):
        self.p, self.v = prog, ver
        self.direct, self.calls = {}, {}
        self.bysig = {}
        for n, f in prog.funcs.items():
            if f.get("parent"):
                self.bysig.setdefault(prog.ty(f["sig"]).s, []).append(n)
        for n, f in prog.funcs.items():
            if n.startswith(("exported", "(assert", "assert")):
                continue
            self.scan(n, f)
        self.full, self.opened = {}, {}

    def scan(self, n, f):
        v = self.v
        d, c = set(), set()
        defs = {}
        for b in f["blocks"]:
            for i in b["instrs"]:
                if "reg" in i:
                    defs[i["reg"]] = i

        def addr(a, whole):
            ty = self.p.ty(a["t"])
            if a["k"] == "reg":
                i = defs[a["n"]]
                if i["op"] == "FieldAddr":
                    bt = self.p.ty(i["x"]["t"]).u()
                    if bt.kind == "pointer" and v.is_object(bt.elem):
                        fn_, ft = bt.elem.u().fields[i["field"]]
                        d.add(v.field_heap(v.objname(bt.elem), fn_, ft))
                    else:
                        addr(i["x"], False)
                    return
                if i["op"] == "IndexAddr":
                    xt = self.p.ty(i["x"]["t"]).u()
                    if xt.kind == "slice":
                        d.add(v.elem_heap(xt.elem))
                    elif xt.kind == "pointer":
                        d.add(v.elem_heap(xt.elem.u().elem))
                    return
                if i["op"] == "Alloc":
                    return
                if ty.u().kind == "pointer" and v.is_object(ty.u().elem):
                    for fn_, ft in ty.u().elem.u().fields:
                        d.add(v.field_heap(v.objname(ty.u().elem), fn_, ft))
        for b in f["blocks"]:
            for i in b["instrs"]:
                op = i["op"]
                try:
                    if op == "Store":
                        addr(i["addr"], True)
                    elif op == "MapUpdate":
                        for h in v.map_heaps(self.p.ty(i["m"]["t"])):
                            d.add(h)
                    elif op == "MakeMap":
                        for h in v.map_heaps(self.p.ty(i["t"])):
                            d.add(h)
                        d.add("#alloc")
                    elif op == "MakeSlice":
                        d.add(v.elem_heap(self.p.ty(i["t"]).u().elem))
                        d.add("#alloc")
                    elif op == "Convert":
                        t = self.p.ty(i["t"]).u()
                        if t.kind == "slice":
                            d.add(v.elem_heap(t.elem))
                            d.add("#alloc")
                    elif op == "Alloc":
                        t = self.p.ty(i["t"]).elem
                        if v.is_object(t):
                            d.add("#alloc")
                            for fn_, ft in t.u().fields:
                                d.add(v.field_heap(v.objname(t), fn_, ft))
                        elif t.u().kind == "array" and t.kind != "named":
                            d.add("#alloc")
                            d.add(v.elem_heap(t.u().elem))
                except Unsupported:
                    d.add("#unsupported")
                cc = i.get("call")
                if cc:
                    if "invoke" in cc:
                        it = self.p.ty(cc["recv"]["t"])
                        im = v.impl_of(it)
                        if im:
                            c.add(im[1][cc["invoke"]])
                    else:
                        fn = cc["fn"]
                        if fn["k"] == "func":
                            c.add(fn["n"])
                        elif fn["k"] == "builtin":
                            if fn["n"] == "append":
                                try:
                                    d.add(v.elem_heap(self.p.ty(i["t"]).u().elem))
                                except Unsupported:
                                    d.add("#unsupported")
                                d.add("#alloc")
                        elif fn["k"] == "reg" and defs.get(fn["n"], {}).get("op") == "MakeClosure":
                            pass     # added below
                        else:
                            # an own parameter: whoever passes the function counts what it does
                            c.add(("psig:" if fn["k"] == "param" else "sig:") + self.p.ty(cc["sig"]).s)
                    called = cc.get("fn")
                else:
                    called = None
                for x in walkvals(i):
                    if x["k"] == "func" and x is not called:
                        c.add(x["n"])
        self.direct[n], self.calls[n] = d, c

    def of_values(self, args):
        """what the function values among the arguments of a call may write"""
        out = set()
        for a in args:
            if isinstance(a, ClosureV):
                out |= self.of(a.fn)
            elif isinstance(a, Z) and a.ty is not None and a.ty.kind not in ("set", "raw", "real", "dict") and a.ty.u().kind == "func":
                out |= self.of("sig:" + a.ty.u().s)
            elif isinstance(a, SliceV) and a.ty.u().elem.u().kind == "func":
                out |= self.of("sig:" + a.ty.u().elem.u().s)
        return out

    def pure_sig(self, key):
        c = self.v.specs.functypes.get(key)
        return c is not None and self.v.ft_active(c) and any(cl.text.strip() == "pure" for cl in self.v.active(c.clauses, "option"))

    def of_open(self, n):
        """the same, whatever its parameters of function types are"""
        if n not in self.opened:
            self.opened[n] = self.of(n, True)
        return self.opened[n]

    def of(self, n, opened=False):
        if n in self.full and not opened:
            return self.full[n]
        seen, st, out = set(), [n], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.startswith("psig:") and not opened:
                continue
            if x.startswith(("sig:", "psig:")):
                if self.pure_sig(x.split(":", 1)[1]):
                    continue     # each function of this type is checked against the contract of the type
                st.extend(self.bysig.get(x.split(":", 1)[1], []))
                continue
            out |= self.direct.get(x, set())
            st.extend(self.calls.get(x, ()))
            if x not in self.direct:
                c = self.v.specs.contracts.get(x)
                if c:
                    for cl in c.get("modifies"):
                        for h in cl.text.split(","):
                            if h.strip():
                                out.add(h.strip())
        if not opened:
            self.full[n] = out
        return out
