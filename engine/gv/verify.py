"""Verification of one function against its contract: generates the conditions,
infers which invariant instances hold (Houdini), and discharges everything."""
import time, re, os
import z3
from .base import *
from .sym import Verifier, State, Ob, Loop, INT, BOOL, STRING, BYTE, I, raw, T_and, has_quant
from .evalspec import EvalMixin, Ctx, SpecError, find_tparam, multipat
from .execu import ExecMixin
from .instrs import InstrMixin
from . import spec as S
from . import solve


class Report:
    def __init__(self, fn):
        self.fn = fn
        self.obs = []            # dicts
        self.used = set()
        self.externs = set()
        self.inlined = set()
        self.closures = []
        self.invs = []
        self.notes = []
        self.time = 0.0
        self.groups = set()
        self.lemmas = set()


class V(EvalMixin, ExecMixin, InstrMixin, Verifier):
    def __init__(self, prog, specs, prop, ginit, opts=None):
        self.fcount = 0
        self.cellnames = {}
        self.in_quant = False
        self.expand_lits = True
        self.liteq_seen, self.liteq_facts = {}, []
        self.logicfns = {}
        self.closures_escaped = {}
        self.safety_on = False
        self.cur_contract = self.cur_fn = self.cur_name = None
        self.cur_names = {}
        self.st_old = None
        self.opq = {}
        Verifier.__init__(self, prog, specs, prop, ginit, opts)
        if (opts or {}).get("merge", True):
            self.mergejoins = True

    # ------------------------------------------------------------ start state
    def start_state(self):
        st = State()
        st.A = self.A0
        st.pc = [self.A0 > len(self.gobj_list) + 1]
        return st

    def param_value(self, p, st, contract):
        ty = self.p.ty(p["t"]) if not isinstance(p["t"], Ty) else p["t"]
        u = ty.u()
        n = p["n"]
        if u.kind == "pointer" and not self.is_object(u.elem):
            cid = "param:%s" % n
            st.cells[cid] = self.havoc(u.elem, "at_" + n, st)
            st.ctypes[cid] = u.elem
            self.cellnames[cid] = n
            iscell = any(n2 in [x.strip() for x in cl.text.split(",")]
                         for cl in self.active(contract.clauses, "cells")
                         for n2 in [self.pname(contract, p)]) if contract else False
            nil = None if iscell else fresh("nil_" + n, z3.BoolSort())
            return AddrV("cell", cid, (), ty=u.elem, nil=nil)
        return self.havoc(ty, "p_" + n, st)

    def pname(self, contract, p):
        if contract.params is None or contract.default:
            return p["n"]
        i = [q["n"] for q in self.cur_fn["params"]].index(p["n"])
        return contract.params[i]

    def case_list(self, cl):
        """the values a `cases` clause names; `objects S`: every object of type S made at initialisation"""
        out = []
        for x in cl.expr:
            if x.startswith("objects "):
                out += ["#%d" % (k + 1) for k, o in enumerate(self.gobj_list)
                        if o.ty.kind == "named" and self.is_object(o.ty) and self.objname(o.ty) == x[8:].strip()]
            else:
                out.append(x)
        return out

    def case_formula(self, cl, names, f):
        v = names[cl.name]
        out = []
        for x in self.case_list(cl):
            if x == "nil":
                out.append(self.term(v) == 0)
            elif x.startswith("#"):
                out.append(self.term(v) == int(x[1:]))
            else:
                g = self.ev(S.parse_expr(x), Ctx(None, None, {}, f))
                out.append(self.term(v) == self.term(g))
        return z3.Or(out)

    # ------------------------------------------------------------ one function
    def gen(self, name, c, case=None, closure=None):
        """generates obligations for one function (one case)"""
        fn = self.p.funcs[name]
        self.cur_fn, self.cur_contract, self.cur_name = fn, c, name
        self.safety_on = any(True for _ in self.active(c.clauses, "safety")) if c else False
        st = self.start_state()
        args = []
        for k, p in enumerate(fn["params"]):
            pn = (c.params[k] if c.params is not None and not c.default and k < len(c.params) else p["n"])
            if case is not None and pn == case[0]:
                ty = self.p.ty(p["t"])
                if case[1] == "nil":
                    args.append(self.zero(ty))
                elif case[1].startswith("#"):
                    args.append(Z(I(int(case[1][1:])), ty))
                else:
                    v = self.ev(S.parse_expr(case[1]), Ctx(st, st, {}, fn))
                    args.append(Z(self.term(v), ty))
            else:
                args.append(self.param_value(p, st, c))
        free = []
        for p in fn["free"]:
            ty = self.p.ty(p["t"])
            u = ty.u()
            if u.kind == "pointer" and not self.is_object(u.elem):
                cid = "free:%s" % p["n"]
                st.cells[cid] = self.havoc(u.elem, "cap_" + p["n"], st)
                st.ctypes[cid] = u.elem
                free.append(AddrV("cell", cid, (), ty=u.elem))
            else:
                free.append(self.havoc(ty, "cap_" + p["n"], st))
        names = self.bind_names(c, fn, args)
        if c.default:
            names.update({k: v for k, v in zip([p["n"] for p in fn["params"]], args)})
        self.st_old = st.copy()
        self.cur_names = names
        self.lets(c, names, st, fn)
        for cl in self.active(c.clauses, "requires"):
            st.pc.append(self.evb(cl.expr, Ctx(st, self.st_old, names, fn)))
        self.npre = len(st.pc)
        self.prepc = list(st.pc)
        self.st_old = st.copy()
        mods = self.modifies(c, fn)
        rets = self.exec_fn(fn, args, free, st)
        self.retpcs = []
        for rst, vals in rets:
            if not self.feasible(rst):
                continue
            nm = dict(names)
            nm.update(self.bind_names(c, fn, args, vals))
            for k in names:
                nm.setdefault(k, names[k])
            for cl in self.active(c.clauses, "ghost"):
                self.ghost_assign(cl, rst, self.st_old, nm, fn)
            self.retpcs.append(list(rst.pc))
            ctx = Ctx(rst, self.st_old, nm, fn)
            base = len(rst.pc)
            for cl in self.active(c.clauses, "assume"):
                rst.pc.append(self.evb(cl.expr, ctx))
                self.assumed_notes.add("%s: assumed at return: %s" % (name, cl.text))
            for cl in self.active(c.clauses, "hint"):
                self.oblige(rst, "hint: " + cl.text, self.evb(cl.expr, ctx), cl.where, "hint", cl.labels)
            for cl in self.active(c.clauses, "ensures"):
                self.oblige(rst, "postcondition: %s" % (cl.name or cl.text), self.evb(cl.expr, ctx), cl.where, "post", cl.labels)
            self.frame_obs(rst, mods, args, names, c)
        return rets

    def frame_obs(self, rst, mods, args, names, c):
        x = z3.Int("fx")
        for h in sorted(rst.heaps):
            if h in mods or h.startswith("#"):
                continue
            t, b = rst.heaps[h], self.base[h][0]
            if t.eq(b):
                continue
            g = z3.ForAll([x], z3.Implies(z3.And(0 < x, x < self.A0), t[x] == b[x]), patterns=[t[x]])
            self.oblige(rst, "frame: %s of objects that existed before is unchanged" % h, g, c.where, "frame")
        for g_ in sorted(rst.ghosts):
            if g_ in mods:
                continue
            a, b = self.ghost(rst, g_).t, self.ghost(self.st_old, g_).t
            if not a.eq(b):
                self.oblige(rst, "frame: ghost %s unchanged" % g_, a == b, c.where, "frame")
        for n, a in names.items():
            if isinstance(a, AddrV) and a.kind == "cell" and "*" + n not in mods and a.a.startswith("param:"):
                v0, v1 = self.st_old.cells[a.a], rst.cells[a.a]
                e = self.eq(v0, v1)
                if not z3.is_true(z3.simplify(e)):
                    self.oblige(rst, "frame: *%s unchanged" % n, e, c.where, "frame")

    # ------------------------------------------------------------ background facts
    def group_axioms(self, c, fn):
        """axioms and lemmas of the groups the contract uses"""
        groups = set()
        for cl in self.active(c.clauses, "uses"):
            for g in cl.text.split(","):
                groups.add(g.strip())
        self.groups_used = groups
        return self.axioms_of(groups, fn)

    def axioms_of(self, groups, fn, upto=None):
        out = []
        ctx = Ctx(self.start_state(), self.start_state(), {}, fn)
        self.expand_lits = False
        try:
            for n, g, e, txt in self.specs.axioms:
                if g in groups:
                    out.append(self.evb(e, ctx))
            for n, g, k, strong, e, txt, using in self.specs.lemmas:
                if n == upto:
                    break
                if g in groups:
                    out.append(self.evb(e, ctx))
        finally:
            self.expand_lits = True
        return out

    def gen_lemma(self, lem):
        n, g, k, strong, e, txt, using = lem
        fn = {"params": [], "targs": []}
        st = self.start_state()
        ctx = Ctx(st, st, {}, fn)
        groups = set(using) | {g}
        self.groups_used = groups
        ax = self.axioms_of(groups, fn, upto=n)
        f = self.evb(e, ctx)
        pc = list(st.pc)
        if k is not None:
            # well-founded induction: the statement may be used for smaller k >= 0
            assert e[0] == "forall"
            vs = {}
            names = {}
            for vn, tn in e[1]:
                t = self.rtype(tn, fn)
                c = z3.Const(fresh_name("ind_" + vn), self.rsort(t))
                names[vn] = self.val(c, t) if t.kind not in ("set", "raw", "real", "dict") and t.u().kind == "slice" else Z(c, t)
                vs[vn] = c
            body = self.evb(e[3], ctx.bind(names))
            if self.specs.hints.get(n) is not None:
                pc.append(z3.Function("term!Bool", z3.BoolSort(), z3.BoolSort())(self.evb(self.specs.hints[n], ctx.bind(names))))
            if k.startswith("("):       # on a measure: the statement may be used where it is smaller and >= 0
                me = self.evt(S.parse_expr(k[1:-1]), ctx.bind(names))
                sub = [(vs[o], fresh("ih_" + o, vs[o].sort())) for o in vs]
                less = z3.And(0 <= z3.substitute(me, *sub), z3.substitute(me, *sub) < me)
                pats = [multipat([z3.substitute(self.evt(p, ctx.bind(names)), *sub) for p in ps]) for ps in e[2]]
                assert pats
                pc.append(z3.ForAll([b for _, b in sub], z3.Implies(less, z3.substitute(body, *sub)), patterns=pats))
                self.obs.append(Ob("lemma " + n, None, pc, body, "lemma", "lemma"))
                return ax
            q = fresh("ih", z3.IntSort())
            others = [v for v in vs if v != k]
            sub = [(vs[k], q)] + [(vs[o], fresh("ih_" + o, vs[o].sort())) for o in others]
            ihb = z3.substitute(body, *sub)
            pats = []
            for ps in e[2]:
                pats.append(multipat([z3.substitute(self.evt(p, ctx.bind(names)), *sub) for p in ps]))
            vars_ = [b for _, b in sub]
            ih = z3.ForAll(vars_, z3.Implies(z3.And(0 <= q, q < vs[k]), ihb), patterns=pats) if pats else None
            if ih is not None:
                pc.append(ih)
            ovars = [b for _, b in sub[1:]]
            inst = z3.substitute(ihb, (q, vs[k] - 1))
            if ovars:
                # the instance at k-1 for the same other variables, and for all of them
                same = z3.substitute(inst, *[(b, a) for a, b in sub[1:]])
                pc.append(z3.Implies(vs[k] >= 1, same))
            else:
                pc.append(z3.Implies(vs[k] >= 1, inst))
            goal = body
        else:
            goal = f
        self.obs.append(Ob("lemma " + n, None, pc, goal, "lemma", "lemma"))
        return ax


def run_task(prog, specs, ginit, prop, task, opts):
    """task: ("fn", name, case) | ("lemma", name) | ("closure", name, functype)"""
    t0 = time.time()
    kind = task[0]
    rep = Report("/".join(str(x) for x in task if x))
    v = V(prog, specs, prop, ginit, opts)
    fails = []
    try:
        if kind == "lemma":
            lem = [l for l in specs.lemmas if l[0] == task[1]][0]
            ax = v.gen_lemma(lem)
            c = None
        elif kind == "fact":
            n, labels, e, txt, where = [l for l in specs.facts if l[0] == task[1]][0]
            st = v.start_state()
            v.groups_used = set()
            v.obs.append(Ob("fact %s: %s" % (n, txt[:80]), where, list(st.pc), v.evb(e, Ctx(st, st, {}, {"params": [], "targs": []})), "fact", "fact"))
            ax, c = [], None
        else:
            name = task[1]
            if kind == "closure":
                c = specs.functypes[task[2]]
            else:
                c = v.contract_for(name)
            v.gen(name, c, task[2] if kind == "fn" else None)
            ax = v.group_axioms(c, prog.funcs[name])
        rep.groups = v.groups_used
        d = solve.Discharger(v, ax, opts)
        if v.loops:
            d.houdini()
        d.discharge()
        if kind not in ("lemma", "fact"):
            d.reach()
        rep.obs = d.results
        rep.invs = d.invs
    except Unsupported as ex:
        rep.obs.append({"name": "generator: " + str(ex), "kind": "unsupported", "where": "", "ok": False, "ms": 0, "backend": "-", "detail": str(ex)})
    except SpecError as ex:
        rep.obs.append({"name": "contract does not fit the code: " + str(ex), "kind": "unsupported", "where": "", "ok": False, "ms": 0, "backend": "-", "detail": str(ex)})
    rep.used = set(v.contracts_used)
    rep.externs = set(v.externs_used)
    rep.inlined = set(v.inlined)
    rep.closures = [(n, prog.ty(prog.funcs[n]["sig"]).s) for n in v.closures_escaped]
    rep.notes = sorted(v.assumed_notes)
    rep.time = time.time() - t0
    return rep
