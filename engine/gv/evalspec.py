"""Evaluation of contract expressions to z3 terms in a program state."""
import z3
from .base import *
from .sym import Verifier, State, INT, BOOL, STRING, BYTE, I, raw, T_and
from . import spec as S


def multipat(ts):
    # z3.MultiPattern drops its argument list before it uses the terms: they have to be held here
    r = z3.MultiPattern(*ts)
    return r if len(ts) else None


class Ctx:
    def __init__(self, st, old, names, fn=None, entry=None, fresh_base=None):
        self.st, self.old, self.names, self.fn, self.entry = st, old, names, fn, entry
        self.qdepth = 0

    def at(self, st, names=None):
        c = Ctx(st, self.old, names or self.names, self.fn, self.entry)
        c.qdepth = self.qdepth
        return c

    def bind(self, d):
        n = dict(self.names)
        n.update(d)
        c = Ctx(self.st, self.old, n, self.fn, self.entry)
        c.qdepth = self.qdepth
        return c


def B(t):
    return Z(t, BOOL)


def N(t):
    return Z(t, INT)


class SpecError(Exception):
    pass


def find_tparam(t, seen=None):
    seen = seen or set()
    if t is None or id(t) in seen:
        return None
    seen.add(id(t))
    if t.kind == "tparam":
        return t
    for x in [t.elem, t.key, t.under] + (t.elems or []) + (t.targs or []):
        r = find_tparam(x, seen)
        if r:
            return r
    if t.kind == "struct":
        for _, ft in t.fields:
            r = find_tparam(ft, seen)
            if r:
                return r
    return None


class EvalMixin:
    in_pat = False

    def rtype(self, s, fn=None):
        if s == "int":
            return INT
        if s == "bool":
            return BOOL
        if s == "string":
            return STRING
        if s == "byte":
            return BYTE
        if s == "real":
            return Ty("real", "real")
        if s in ("T", "T0"):
            if fn is not None:
                if fn.get("targs"):
                    return self.p.ty(fn["targs"][0])
                for p in fn["params"]:
                    r = find_tparam(self.p.ty(p["t"]))
                    if r:
                        return r
                raise SpecError("no type parameter")
        if s.startswith("[]"):
            e = self.rtype(s[2:], fn)
            t = self.p.by_str.get("[]" + e.s)
            return t or Ty("slice", "[]" + e.s, elem=e)
        if s.startswith("set["):
            return Ty("set", s, elem=self.rtype(s[4:-1], fn))
        if s.startswith("seq["):   # total array from int
            return Ty("raw", s, elem=self.rtype(s[4:-1], fn))
        if s.startswith("dict["):  # total map from strings
            return Ty("dict", s, elem=self.rtype(s[5:-1], fn))
        if s.startswith("map["):   # total array from refs
            return Ty("raw", s, elem=self.rtype(s[4:-1], fn))
        if s.startswith("Set[") and fn is not None:
            e = self.rtype(s[4:-1], fn)
            for t in self.p.types.values():
                if t.kind == "named" and t.s == "charset.Set[%s]" % e.s:
                    return t
            for t in self.p.types.values():
                if t.kind == "named" and t.s.startswith("charset.Set[") and t.targs and t.targs[0] is e:
                    return t
        for c in (s, ("*goast." + s[1:]) if s.startswith("*") else "goast." + s):
            if c in self.p.by_str:
                return self.p.by_str[c]
        if s.startswith("*"):
            for t in self.p.types.values():
                if t.kind == "pointer" and self.is_object(t.elem) and self.objname(t.elem) == s[1:] and find_tparam(t):
                    return t
        raise SpecError("unknown type " + s)

    def rsort(self, t):
        if t.kind == "real":
            return z3.RealSort()
        if t.kind == "set":
            return z3.ArraySort(self.rsort(t.elem), z3.BoolSort())
        if t.kind == "raw":
            return z3.ArraySort(z3.IntSort(), self.rsort(t.elem))
        if t.kind == "dict":
            return z3.ArraySort(Str, self.rsort(t.elem))
        return sort_of(t)

    def streq(self, a, b, qdepth=0):
        """equality of two string terms; literal comparisons also say it byte by byte"""
        la, lb = lit_of(a), lit_of(b)
        if la is not None and lb is not None:
            return z3.BoolVal(la == lb)
        if la is not None:
            a, b, la, lb = b, a, lb, la
        if lb is not None and len(lb) <= 12:
            d = T_and([slen(a) == len(lb)] + [sat(a, i) == x for i, x in enumerate(lb)])
            if self.in_quant or not self.expand_lits:
                return a == b
            key = (a.get_id(), b.get_id())
            if key not in self.liteq_seen:
                self.liteq_seen[key] = a
                self.liteq_facts.append((a == b) == d)
            return a == b
        if not self.in_quant and self.expand_lits:
            # different strings differ in length or in a byte
            key = (a.get_id(), b.get_id())
            if key not in self.liteq_seen:
                self.liteq_seen[key] = (a, b)
                d = fresh("diff", z3.IntSort())
                self.liteq_facts.append(z3.Or(a == b, slen(a) != slen(b), z3.And(0 <= d, d < slen(a), sat(a, d) != sat(b, d))))
        return a == b

    def eq(self, x, y):
        for a, b in ((x, y), (y, x)):
            if isinstance(a, AddrV):
                if isinstance(b, Z) and z3.is_int_value(b.t):
                    return a.nil if a.nil is not None else z3.BoolVal(False)
                if isinstance(b, AddrV) and a.kind == b.kind == "cell":
                    return z3.BoolVal(a.a == b.a and a.b == b.b)
                raise Unsupported("comparison of addresses")
            if isinstance(a, MapConst):
                return z3.BoolVal(False)
            if isinstance(a, ClosureV):
                return z3.BoolVal(False)
            if isinstance(a, SliceV) and isinstance(b, Z):
                return a.arr == 0
        if isinstance(x, SliceV) and isinstance(y, SliceV):
            if z3.is_int_value(y.arr) and y.arr.as_long() == 0:
                return x.arr == 0
            if z3.is_int_value(x.arr) and x.arr.as_long() == 0:
                return y.arr == 0
            return z3.And(x.arr == y.arr, x.off == y.off, x.len == y.len)
        if isinstance(x, StructV) and isinstance(y, StructV):
            return T_and([self.eq(a, b) for a, b in zip(x.fs, y.fs)])
        tx, ty = self.term(x), self.term(y)
        if tx.sort() == Str and ty.sort() == Str:
            return self.streq(tx, ty)
        if tx.sort() != ty.sort():
            if tx.sort() == z3.RealSort() or ty.sort() == z3.RealSort():
                return tx == ty
            raise SpecError("comparison of %s and %s" % (tx.sort(), ty.sort()))
        if tx.sort().kind() == z3.Z3_DATATYPE_SORT and tx.sort().name().startswith("Arr"):
            return self.dteq(tx, ty)
        return tx == ty

    def dteq(self, a, b):
        """array-valued (Kind) equality; constant constructors are compared directly"""
        ca = z3.is_app(a) and a.decl().name() == "mk"
        cb = z3.is_app(b) and b.decl().name() == "mk"
        if ca and cb:
            es = []
            for p, q in zip(a.children(), b.children()):
                es.append(self.streq(p, q) if p.sort() == Str else p == q)
            return z3.simplify(T_and(es))
        return a == b

    def fieldval(self, st, x, name):
        """x.name for a pointer to an object"""
        ty = x.ty
        u = ty.u()
        if u.kind == "interface":
            im = self.impl_of(ty)
            if not im:
                raise SpecError("field of interface")
            t = self.p.by_str["*" + im[0]] if "*" + im[0] in self.p.by_str else None
            if t is None:
                for c in self.p.types.values():
                    if c.kind == "pointer" and self.is_object(c.elem) and c.elem.s.startswith(im[0]):
                        t = c
                        break
            u = t
        elem = u.elem
        if (self.objname(elem), name) in self.specs.ghostfields:
            gt = self.rtype(self.specs.ghostfields[(self.objname(elem), name)])
            h = self.ghost_heap(self.objname(elem), name, gt)
            return Z(self.heap(st, h)[x.t], gt)
        for fn_, ft in elem.u().fields:
            if fn_ == name:
                h = self.field_heap(self.objname(elem), name, ft)
                r = self.heap(st, h)[x.t]
                g = self.gobj_field(x.t, elem, name)
                return g if g is not None else self.val(r, ft)
        raise SpecError("no field %s in %s" % (name, elem.s))

    def ghost_heap(self, sname, f, gt):
        n = "%s.%s" % (sname, f)
        if n not in self.base:
            self._mkbase(n, z3.ArraySort(z3.IntSort(), self.rsort(gt)), None, fresh0=(sname, f) in self.specs.ghostfresh)
        return n

    def gobj_field(self, ref, elem, name):
        """field of an object created at initialisation whose fields nobody writes later"""
        if not z3.is_int_value(ref):
            return None
        k = ref.as_long()
        if not (1 <= k <= len(self.gobj_list)):
            return None
        o = self.gobj_list[k - 1]
        if o.ty.s != elem.s:
            return None
        if "%s.%s" % (self.objname(elem), name) in self.stored_fields():
            return None
        for i, (fn_, ft) in enumerate(elem.u().fields):
            if fn_ == name:
                return self.conc(o.v[i], ft, elem.s + "." + name)
        return None

    def stored_fields(self):
        if not hasattr(self, "_stored"):
            s = set()
            for n, d in self.modsets.direct.items():
                if n.endswith(".init"):
                    continue
                s |= d
            self._stored = s
        return self._stored

    def ev(self, e, c):
        k = e[0]
        f = getattr(self, "ev_" + k)
        return f(e, c)

    def evb(self, e, c):
        v = self.ev(e, c)
        if not isinstance(v, Z) or v.t.sort() != z3.BoolSort():
            raise SpecError("not a condition: %r" % (e,))
        return v.t

    def evt(self, e, c):
        return self.term(self.ev(e, c))

    def ev_num(self, e, c):
        return N(I(e[1]))

    def ev_str(self, e, c):
        return Z(lit(e[1]), STRING)

    def ev_id(self, e, c):
        n = e[1]
        if n in c.names:
            return c.names[n]
        if n == "true":
            return B(z3.BoolVal(True))
        if n == "false":
            return B(z3.BoolVal(False))
        if n == "nil":
            return N(I(0))
        if n in self.specs.ghostvars:
            return self.ghost(c.st, n)
        if "goast." + n in self.frozen:
            return self.global_value("goast." + n, self.gtype("goast." + n))
        raise SpecError("unknown name " + n)

    def ghost(self, st, n):
        t = self.rtype(self.specs.ghostvars[n])
        if n not in st.ghosts:
            return Z(z3.Const("G_" + n, self.rsort(t)), t)
        return Z(st.ghosts[n], t)

    def gtype(self, n):
        if not hasattr(self, "_gt"):
            self._gt = {}
            for f in self.p.funcs.values():
                for b in f["blocks"]:
                    for i in b["instrs"]:
                        for v in walkvals(i):
                            if v["k"] == "global":
                                self._gt[v["n"]] = self.p.ty(v["t"]).elem
        return self._gt[n]

    def ev_field(self, e, c):
        if e[1][0] == "id" and e[1][1] not in c.names:
            g = e[1][1] + "." + e[2]
            if g in self.frozen:
                return self.global_value(g, self.gtype(g))
        x = self.ev(e[1], c)
        if isinstance(x, StructV):
            for i, (fn_, ft) in enumerate(x.ty.u().fields):
                if fn_ == e[2]:
                    return x.fs[i]
            raise SpecError("no field " + e[2])
        if isinstance(x, AddrV):
            v = self.load(c.st, x)
            return self.ev_field(("field", ("val", v), e[2]), c)
        if isinstance(x, Z) and x.t.sort().kind() == z3.Z3_DATATYPE_SORT and e[2] in ("k0", "k1"):
            return Z(x.t.sort().accessor(0, int(e[2][1]))(x.t), STRING)
        return self.fieldval(c.st, x, e[2])

    def ev_val(self, e, c):
        return e[1]

    def ev_deref(self, e, c):
        x = self.ev(e[1], c)
        if isinstance(x, AddrV):
            return self.load(c.st, x)
        raise SpecError("deref of non-address")

    def ev_index(self, e, c):
        x = self.ev(e[1], c)
        if isinstance(x, SliceV):
            h = self.elem_heap(x.ty.u().elem)
            i = self.evt(e[2], c)
            return self.val(self.heap(c.st, h)[x.arr][ix(x.off, i)], x.ty.u().elem)
        if isinstance(x, MapConst):
            k = self.ev(e[2], c)
            items = x.items
            r = self.term(self.zero(x.ty.u().elem))
            for kk, vv in items:
                r = z3.If(self.eq(k, kk), self.term(vv), r)
            return self.val(r, x.ty.u().elem)
        if isinstance(x, Z):
            u = x.ty.u()
            if x.t.sort() == Str:
                return Z(sat(x.t, self.evt(e[2], c)), BYTE)
            if x.ty.kind in ("raw", "set", "dict"):
                return Z(x.t[self.evt(e[2], c)], BOOL if x.ty.kind == "set" else x.ty.elem)
            if u.kind == "map":
                d, v = self.map_heaps(x.ty)
                kt = self.evt(e[2], c)
                return self.val(z3.If(self.heap(c.st, d)[x.t][kt], self.heap(c.st, v)[x.t][kt], self.term(self.zero(u.elem))), u.elem)
            if u.kind == "array":
                i = self.evt(e[2], c)
                return Z(x.t.sort().accessor(0, i.as_long())(x.t), u.elem)
        raise SpecError("index of %r" % (x,))

    def ev_slice(self, e, c):
        x = self.ev(e[1], c)
        lo = self.evt(e[2], c) if e[2] else I(0)
        if isinstance(x, SliceV):
            hi = self.evt(e[3], c) if e[3] else x.len
            return SliceV(x.arr, reoff(x.off, lo), hi - lo, x.cap - lo, x.ty)
        hi = self.evt(e[3], c) if e[3] else slen(x.t)
        return Z(ssub(x.t, lo, hi), STRING)

    def ev_not(self, e, c):
        return B(z3.Not(self.evb(e[1], c)))

    def ev_neg(self, e, c):
        return N(-self.evt(e[1], c))

    def ev_and(self, e, c):
        return B(z3.And(self.evb(e[1], c), self.evb(e[2], c)))

    def ev_or(self, e, c):
        return B(z3.Or(self.evb(e[1], c), self.evb(e[2], c)))

    def ev_imp(self, e, c):
        return B(z3.Implies(self.evb(e[1], c), self.evb(e[2], c)))

    def ev_iff(self, e, c):
        return B(self.evb(e[1], c) == self.evb(e[2], c))

    def ev_ite(self, e, c):
        a, b = self.ev(e[2], c), self.ev(e[3], c)
        ty = a.ty if not (isinstance(a, Z) and z3.is_int_value(a.t)) else b.ty
        return self.val(z3.If(self.evb(e[1], c), self.term(a), self.term(b)), ty)

    def ev_let(self, e, c):
        return self.ev(e[3], c.bind({e[1]: self.ev(e[2], c)}))

    def ev_bin(self, e, c):
        op = e[1]
        x, y = self.ev(e[2], c), self.ev(e[3], c)
        if op == "==":
            return B(self.eq(x, y))
        if op == "!=":
            return B(z3.Not(self.eq(x, y)))
        if op == "in":
            return B(self.contains(c.st, y, x))
        a, b = self.term(x), self.term(y)
        if op == "+":
            if a.sort() == Str:
                return Z(scat(a, b), STRING)
            return Z(a + b, x.ty if not x.ty.kind == "real" else x.ty)
        if op == "-":
            return Z(a - b, x.ty)
        if op == "*":
            return Z(a * b, x.ty)
        if op == "/":
            return Z(a / b, x.ty)
        if op == "%":
            return Z(a % b, x.ty)
        return B({"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]())

    def contains(self, st, m, k):
        if isinstance(m, MapConst):
            return z3.simplify(z3.Or([self.eq(k, kk) for kk, _ in m.items] or [z3.BoolVal(False)]))
        if isinstance(m, Z):
            if m.ty.kind == "set":
                return m.t[self.term(k)]
            if m.ty.u().kind == "map":
                d, _ = self.map_heaps(m.ty)
                if self.in_pat:
                    return self.heap(st, d)[m.t][self.term(k)]
                return z3.And(m.t != 0, self.heap(st, d)[m.t][self.term(k)])
        if isinstance(m, SliceV):
            i = z3.Int(fresh_name("ix"))
            h = self.elem_heap(m.ty.u().elem)
            return z3.Exists([i], z3.And(0 <= i, i < m.len, self.heap(st, h)[m.arr][ix(m.off, i)] == self.term(k)))
        raise SpecError("in")

    def quant(self, e, c, q):
        names, vs, guards = {}, [], []
        for n, tn in e[1]:
            t = self.rtype(tn, c.fn)
            v = z3.Const(fresh_name("q_" + n), self.rsort(t))
            vs.append(v)
            names[n] = self.val(v, t) if t.u().kind == "slice" else Z(v, t)
        cc = c.bind(names)
        iq, self.in_quant = self.in_quant, True
        try:
            body = self.evb(e[3], cc)
            self.in_pat = True
            pats = [multipat([self.evt(p, cc) for p in ps]) for ps in e[2]]
        finally:
            self.in_quant = iq
            self.in_pat = False
        return B(q(vs, body, patterns=pats) if pats else q(vs, body))

    def ev_forall(self, e, c):
        return self.quant(e, c, z3.ForAll)

    def ev_exists(self, e, c):
        return self.quant(e, c, z3.Exists)

    def ev_call(self, e, c):
        f = e[1]
        args = e[2]
        if f[0] == "id" and f[1] not in c.names:
            n = f[1]
            b = getattr(self, "bi_" + n, None)
            if b:
                return b(args, c)
            if n in self.specs.pure:
                ps, body = self.specs.pure[n]
                if len(ps) != len(args):
                    raise SpecError("arity of " + n)
                vals = {}
                for (pn, pt), a in zip(ps, args):
                    v = self.ev(a, c)
                    if isinstance(v, Z) and v.ty is INT and pt.startswith("*"):
                        v = Z(v.t, self.rtype(pt, c.fn))
                    vals[pn] = v
                cc = Ctx(c.st, c.old, vals, c.fn, c.entry)
                return self.ev(body, cc)
            if n in self.specs.logic:
                return self.logic_app(n, [self.ev(a, c) for a in args], c.fn)
        raise SpecError("call of %r" % (f,))

    def logic_app(self, n, vals, fn=None):
        ps, rt = self.specs.logic[n]
        r = self.rtype(rt, fn)
        ts = []
        for v, pt in zip(vals, ps):
            ts.append(self.term(v))
        if len(ps) != len(vals):
            raise SpecError("arity of " + n)
        key = (n, tuple(t.sort().name() for t in ts), self.rsort(r).name())
        if key not in self.logicfns:
            nm = n if not any(k[0] == n for k in self.logicfns) else n + "_%d" % len(self.logicfns)
            self.logicfns[key] = z3.Function(nm, *([t.sort() for t in ts] + [self.rsort(r)]))
        return Z(self.logicfns[key](*ts), r)

    # built-in specification functions
    def bi_len(self, a, c):
        x = self.ev(a[0], c)
        if isinstance(x, SliceV):
            return N(x.len)
        if isinstance(x, Z) and x.t.sort() == Str:
            return N(slen(x.t))
        raise SpecError("len")

    def bi_old(self, a, c):
        o = c.at(c.old)
        if getattr(c.old, "names", None):
            pass
        return self.ev(a[0], o)

    def bi_entry(self, a, c):
        if c.entry is None:
            raise SpecError("entry() outside a loop invariant")
        st, names = c.entry
        return self.ev(a[0], c.at(st, dict(c.names, **names)))

    def bi_onlyArr(self, a, c):
        """no array of this element type changed but the one the slice is in"""
        s = self.ev(a[0], c)
        n = self.elem_heap(s.ty.u().elem)
        h, o = self.heap(c.st, n), self.heap(c.old, n)
        if h.eq(o):
            return B(z3.BoolVal(True))
        x = z3.Int(fresh_name("q_x"))
        return B(z3.ForAll([x], z3.Implies(x != s.arr, h[x] == o[x]), patterns=[h[x]]))

    def bi_alloc(self, a, c):
        return N(c.st.A)

    def bi_isnew(self, a, c):
        x = self.evt(a[0], c)
        return B(z3.And(x >= c.old.A, x < c.st.A))

    def bi_isold(self, a, c):
        x = self.evt(a[0], c)
        return B(z3.And(x > 0, x < c.old.A))

    def bi_alloced(self, a, c):
        x = self.evt(a[0], c)
        return B(z3.And(x > 0, x < c.st.A))

    def bi_str(self, a, c):
        x = self.ev(a[0], c)
        if isinstance(x, SliceV):
            h = self.elem_heap(x.ty.u().elem)
            return Z(sbytes(self.heap(c.st, h)[x.arr], x.off, x.len), STRING)
        return Z(x.t, STRING)

    def bi_elems(self, a, c):
        x = self.ev(a[0], c)
        h = self.elem_heap(x.ty.u().elem)
        return Z(self.heap(c.st, h)[x.arr], raw(x.ty.u().elem, None))

    def bi_arr(self, a, c):
        return N(self.ev(a[0], c).arr)

    def bi_off(self, a, c):
        return N(pos(self.ev(a[0], c).off))

    def bi_cap(self, a, c):
        return N(self.ev(a[0], c).cap)

    def bi_heap(self, a, c):
        """heap(Node, next): the field as a map from objects"""
        s, f = a[0][1], a[1][1]
        for t in self.p.types.values():
            if t.kind == "named" and self.is_object(t) and self.objname(t) == s:
                if (s, f) in self.specs.ghostfields:
                    gt = self.rtype(self.specs.ghostfields[(s, f)])
                    return Z(self.heap(c.st, self.ghost_heap(s, f, gt)), raw(gt, None))
                for fn_, ft in t.u().fields:
                    if fn_ == f:
                        return Z(self.heap(c.st, self.field_heap(s, f, ft)), raw(ft, None))
        raise SpecError("heap %s.%s" % (s, f))

    def bi_zero(self, a, c):
        return self.zero(self.rtype(a[0][1], c.fn))

    def bi_zerolike(self, a, c):
        return self.zero(self.ev(a[0], c).ty)

    def bi_kind(self, a, c):
        ts = [self.evt(x, c) for x in a]
        t = self.p.by_str["kind.Kind"]
        return Z(sort_of(t).mk(*ts), t)

    def bi_sub(self, a, c):
        x, lo, hi = [self.evt(y, c) for y in a]
        return Z(ssub(x, lo, hi), STRING)

    def bi_byteStr(self, a, c):
        return Z(sbyte(self.evt(a[0], c)), STRING)

    def bi_cat(self, a, c):
        return Z(scat(self.evt(a[0], c), self.evt(a[1], c)), STRING)

    def bi_store(self, a, c):
        m = self.ev(a[0], c)
        return Z(z3.Store(m.t, self.evt(a[1], c), self.evt(a[2], c)), m.ty)

    def bi_ext(self, a, c):
        """ext(s, t): the strings have the same bytes (only differs from == in how it is proved)"""
        return B(self.evt(a[0], c) == self.evt(a[1], c))

    def bi_seqOf(self, a, c):
        return self.bi_elems(a, c)

    def bi_int(self, a, c):
        return N(self.evt(a[0], c))

    def bi_ref(self, a, c):
        return Z(self.evt(a[0], c), self.rtype("*Node"))

    def bi_implements(self, a, c):
        return B(z3.BoolVal(True))
