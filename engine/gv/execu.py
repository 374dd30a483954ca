"""Execution of SSA instructions."""
import re
import z3
from .base import *
from .sym import Verifier, State, Ob, Loop, INT, BOOL, STRING, BYTE, I, raw, T_and, has_quant
from .evalspec import EvalMixin, Ctx, SpecError, find_tparam
from . import spec as S

MAXDEPTH = 40


def loops_of(f):
    """natural loops: header -> set of blocks; and a reverse post order"""
    if "_loops" in f:
        return f["_loops"], f["_rpo"]
    bl = f["blocks"]
    n = len(bl)
    order, seen = [], set()

    def dfs(b):
        stack = [(b, iter(bl[b]["succs"]))]
        seen.add(b)
        while stack:
            x, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(bl[s]["succs"])))
                    break
            else:
                order.append(x)
                stack.pop()
    dfs(0)
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    dom = {b: set(rpo) for b in rpo}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in rpo:
            if b == 0:
                continue
            ps = [p for p in bl[b]["preds"] if p in idx]
            nd = set.intersection(*[dom[p] for p in ps]) | {b}
            if nd != dom[b]:
                dom[b] = nd
                ch = True
    loops = {}
    for b in rpo:
        for s in bl[b]["succs"]:
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(p for p in bl[x]["preds"] if p in idx)
            elif idx[s] <= idx[b]:
                raise Unsupported("irreducible control flow")
    # order loops so that a loop body is finished before what follows the loop
    f["_loops"], f["_rpo"] = loops, idx
    return loops, idx


class Frame:
    def __init__(self, fn, params, free, fid):
        self.fn, self.params, self.free, self.id = fn, params, free, fid


class ExecMixin:
    def operand(self, v, fr, env, st):
        k = v["k"]
        if k == "reg":
            if v["n"] not in env:
                raise Unsupported("value %s not available" % v["n"])
            return env[v["n"]]
        if k == "param":
            return fr.params[v["n"]]
        if k == "free":
            return fr.free[v["n"]]
        if k == "const":
            t = self.p.ty(v["t"])
            if v.get("nil"):
                return self.zero(t)
            if "s" in v:
                return Z(lit(v["s"]), t)
            if "b" in v:
                return Z(z3.BoolVal(v["b"]), t)
            if "i" in v:
                return Z(I(int(v["i"])), t)
            raise Unsupported("constant")
        if k == "global":
            t = self.p.ty(v["t"])
            return AddrV("global", v["n"], ty=t)
        if k == "func":
            return ClosureV(v["n"], [], self.p.ty(v["t"]))
        if k == "builtin":
            return v
        raise Unsupported("operand " + k)

    # ---------------------------------------------------------------- memory
    def load(self, st, a):
        if isinstance(a, Z):
            raise Unsupported("load through %s" % a.ty.s)
        if a.kind == "cell":
            v = st.cells[a.a]
            for kind, i in a.b or ():
                v = self.comp(v, kind, i)
            return v
        if a.kind == "field":
            h = a.a
            r = self.heap(st, h)[a.b]
            t = a.ty
            g = self.gobj_load(a)
            if g is not None:
                return g
            v = self.val(r, t)
            self.type_facts(v, st)
            return v
        if a.kind == "elem":
            v = self.val(self.heap(st, a.a)[a.b][a.c], a.ty)
            if isinstance(v, Z) and v.ty.u().kind == "func":
                s = z3.simplify(v.t)
                if z3.is_int_value(s) and 10000 <= s.as_long() < 10000 + len(self.closures):
                    return self.closures[s.as_long() - 10000]
            self.type_facts(v, st)
            return v
        if a.kind == "global":
            if a.a in self.frozen:
                return self.global_value(a.a, a.ty.elem)
            return self.havoc(a.ty.elem, "glob_" + a.a, st)
        raise Unsupported("load " + a.kind)

    def gobj_load(self, a):
        if z3.is_int_value(a.b):
            k = a.b.as_long()
            if 1 <= k <= len(self.gobj_list):
                o = self.gobj_list[k - 1]
                return self.gobj_field(a.b, o.ty, a.a.split(".", 1)[1])
        return None

    def comp(self, v, kind, i):
        if kind == "f":
            return v.fs[i]
        if isinstance(v, Z):
            return Z(v.t.sort().accessor(0, i)(v.t) if not (z3.is_app(v.t) and v.t.decl().name() == "mk")
                     else v.t.arg(i), v.ty.u().elem)
        raise Unsupported("component")

    def setcomp(self, v, path, new):
        if not path:
            return new
        (kind, i), rest = path[0], path[1:]
        if kind == "f":
            fs = list(v.fs)
            fs[i] = self.setcomp(fs[i], rest, new)
            return StructV(fs, v.ty)
        srt = v.t.sort()
        n = srt.constructor(0).arity()
        xs = [self.comp(v, "i", j) for j in range(n)]
        xs[i] = self.setcomp(xs[i], rest, new)
        return Z(srt.mk(*[self.term(x) for x in xs]), v.ty)

    def store(self, st, a, v, where=""):
        if isinstance(a, Z):
            raise Unsupported("store through %s" % a.ty.s)
        if a.kind == "cell":
            st.cells[a.a] = self.setcomp(st.cells[a.a], a.b or (), v)
            if st.wr is not None:
                st.wr.add(("cell", a.a))
            return
        if a.kind == "field":
            self.set_heap(st, a.a, z3.Store(self.heap(st, a.a), a.b, self.term(v)))
            return
        if a.kind == "elem":
            h = self.heap(st, a.a)
            self.set_heap(st, a.a, z3.Store(h, a.b, z3.Store(h[a.b], a.c, self.term(v))))
            return
        if a.kind == "global":
            if a.a in self.frozen:
                raise Unsupported("store to a frozen global")
            return
        raise Unsupported("store " + a.kind)

    def new_ref(self, st, what):
        r = st.A
        st.A = st.A + 1 if st.wr is None else fresh("Adry", z3.IntSort())
        return r

    def name_alloc(self, st):
        """gives the allocation counter a name so that terms stay small"""
        if not (z3.is_const(st.A)):
            a = fresh("A", z3.IntSort())
            st.pc.append(a == st.A)
            st.A = a

    # ---------------------------------------------------------------- functions
    def exec_fn(self, fn, args, free, st, name_hint=""):
        """Executes the body: list of (state, [result values])."""
        self.depth += 1
        if self.depth > MAXDEPTH:
            raise Unsupported("inlining too deep (recursion without a contract): " + fn["name"])
        try:
            if len(fn["blocks"]) == 0:
                raise Unsupported("no body: " + fn["name"])
            self.fcount += 1
            fr = Frame(fn, {p["n"]: a for p, a in zip(fn["params"], args)},
                       {p["n"]: a for p, a in zip(fn["free"], free)}, self.fcount)
            env = {"#defers": ()}
            if st.wr is not None:
                return self.dry_region(fn, fr, st, env, None, 0)
            rets, _, _ = self.exec_region(fn, fr, [(0, st, env)], None, None)
            return rets
        finally:
            self.depth -= 1

    def phis(self, fn, fr, st, env, b, prev):
        blk = fn["blocks"][b]
        upd = {}
        for i in blk["instrs"]:
            if i["op"] != "Phi":
                break
            upd[i["reg"]] = self.operand(i["edges"][blk["preds"].index(prev)], fr, env, st)
        if upd:
            env = dict(env)
            env.update(upd)
        return env

    def exec_region(self, fn, fr, entries, blocks, header):
        loops, rpo = loops_of(fn)
        pending = {}
        for b, st, env in entries:
            pending.setdefault(b, []).append((st, env))
        rets, exits, backs = [], [], []
        first = header is not None

        def route(s, b, st, env):
            env = self.phis(fn, fr, st, env, s, b)
            if header is not None and s == header:
                backs.append((st, env))
            elif blocks is not None and s not in blocks:
                exits.append((s, st, env))
            else:
                pending.setdefault(s, []).append((st, env))

        while pending:
            # a block outside a loop waits until the loop's own blocks are done
            b = min(pending, key=lambda x: rpo[x])
            items = pending.pop(b)
            if len(items) > 1 and (self.mergejoins or b in loops):
                items = self.merge_items(items)
            for st, env in items:
                if b in loops and not (first and b == header):
                    r, e = self.do_loop(fn, fr, b, st, env)
                    rets += r
                    for s, st2, env2 in e:
                        if header is not None and s == header:
                            backs.append((st2, env2))
                        elif blocks is not None and s not in blocks:
                            exits.append((s, st2, env2))
                        else:
                            pending.setdefault(s, []).append((st2, env2))
                    continue
                for kind, x in self.exec_block(fn, fr, b, st, env):
                    if kind == "ret":
                        rets.append(x)
                    else:
                        s, st2, env2 = x
                        route(s, b, st2, env2)
            first = False if header is not None and b == header else first
        return rets, exits, backs

    def exec_block(self, fn, fr, b, st, env):
        """runs one block on one path; returns ('ret',(st,vals)) / ('go',(succ,st,env))"""
        blk = fn["blocks"][b]
        work = [(st, dict(env), 0)]
        out = []
        ins = blk["instrs"]
        while work:
            st, env, k = work.pop()
            done = False
            while k < len(ins):
                i = ins[k]
                op = i["op"]
                if op == "Phi":
                    k += 1
                    continue
                if op == "If":
                    c = z3.simplify(self.operand(i["x"], fr, env, st).t)
                    for s, cond in ((blk["succs"][0], c), (blk["succs"][1], z3.simplify(z3.Not(c)))):
                        if z3.is_false(cond):
                            continue
                        if z3.is_true(cond):
                            out.append(("go", (s, st, env)))
                            continue
                        st2 = st.copy()
                        st2.pc.append(cond)
                        if self.feasible(st2):
                            out.append(("go", (s, st2, dict(env))))
                    done = True
                    break
                if op == "Jump":
                    out.append(("go", (blk["succs"][0], st, env)))
                    done = True
                    break
                if op == "Return":
                    out.append(("ret", (st, [self.operand(x, fr, env, st) for x in i["xs"]])))
                    done = True
                    break
                if op == "Panic":
                    self.safety(st, z3.BoolVal(False), "explicit panic reachable", i["pos"])
                    done = True
                    break
                if op in ("Call", "RunDefers"):
                    for st2, v in self.do_call(fn, fr, i, st, env):
                        env2 = dict(env)
                        if "reg" in i:
                            env2[i["reg"]] = v
                        work.append((st2, env2, k + 1))
                    done = True
                    break
                v = self.exec_instr(fn, fr, i, st, env)
                if "reg" in i:
                    env[i["reg"]] = v
                k += 1
            if not done:
                raise Unsupported("block without an end")
        return out

    # ---------------------------------------------------------------- merging
    def name_if(self, g, a, b, out):
        """a fresh name for "a on the first path, b on the second" """
        if a.eq(b):
            return a
        if a.sort() == z3.BoolSort():
            return z3.If(g[0], a, b)
        c = fresh("m", a.sort())
        out.append(z3.Implies(g[0], c == a))
        out.append(z3.Implies(g[1], c == b))
        return c

    def merge_val(self, g, a, b, out):
        if a is b:
            return a
        if isinstance(a, Z) and isinstance(b, Z):
            if a.t.eq(b.t):
                return a
            if a.t.sort() != b.t.sort():
                raise Unsupported("merge")
            return Z(self.name_if(g, a.t, b.t, out), a.ty)
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            xs = [self.name_if(g, p, q, out) for p, q in
                  ((a.arr, b.arr), (a.off, b.off), (a.len, b.len), (a.cap, b.cap))]
            return SliceV(*xs, a.ty)
        if isinstance(a, StructV) and isinstance(b, StructV):
            return StructV([self.merge_val(g, p, q, out) for p, q in zip(a.fs, b.fs)], a.ty)
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            return TupleV([self.merge_val(g, p, q, out) for p, q in zip(a.vs, b.vs)])
        if isinstance(a, ClosureV) and isinstance(b, ClosureV) and a.fn == b.fn and \
                len(a.binds) == len(b.binds) and all(self.same(p, q) for p, q in zip(a.binds, b.binds)):
            return a
        if isinstance(a, AddrV) and isinstance(b, AddrV) and self.same(a, b):
            return a
        if isinstance(a, AddrV) and isinstance(b, AddrV) and a.kind == b.kind == "elem" and a.a == b.a:
            return AddrV("elem", a.a, self.name_if(g, a.b, b.b, out), self.name_if(g, a.c, b.c, out), ty=a.ty)
        if isinstance(a, IterV) and isinstance(b, IterV) and a.cell == b.cell:
            return a
        if isinstance(a, tuple) and a == b:
            return a
        if isinstance(a, MapConst) and isinstance(b, MapConst) and a.name == b.name:
            return a
        raise Unsupported("merge of %s and %s" % (type(a).__name__, type(b).__name__))

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, AddrV) and isinstance(b, AddrV):
            return a.kind == b.kind and a.a == b.a and (a.b is b.b or (
                not z3.is_expr(a.b) and not z3.is_expr(b.b) and a.b == b.b) or (
                z3.is_expr(a.b) and z3.is_expr(b.b) and a.b.eq(b.b)))
        if isinstance(a, Z) and isinstance(b, Z):
            return a.t.eq(b.t)
        if isinstance(a, ClosureV) and isinstance(b, ClosureV):
            return a.fn == b.fn and len(a.binds) == len(b.binds) and all(self.same(p, q) for p, q in zip(a.binds, b.binds))
        return False

    def merge2(self, x, y):
        (s1, e1), (s2, e2) = x, y
        n = 0
        while n < len(s1.pc) and n < len(s2.pc) and (s1.pc[n] is s2.pc[n] or s1.pc[n].eq(s2.pc[n])):
            n += 1
        g1, g2 = fresh("path", z3.BoolSort()), fresh("path", z3.BoolSort())
        st = State()
        st.wr, st.trace = s1.wr, s1.trace
        st.pc = s1.pc[:n]
        st.pc.append(z3.Or(g1, g2))
        st.pc.append(z3.Not(z3.And(g1, g2)))
        for f in s1.pc[n:]:
            st.pc.append(z3.Implies(g1, f))
        for f in s2.pc[n:]:
            st.pc.append(z3.Implies(g2, f))
        # names: g1 chosen exactly when the first path is taken; the pc above makes this sound
        for k in s1.cells:
            if k in s2.cells:
                st.cells[k] = self.merge_val((g1, g2), s1.cells[k], s2.cells[k], st.pc)
                st.ctypes[k] = s1.ctypes[k]
        for h in set(s1.heaps) | set(s2.heaps):
            a, b = self.heap(s1, h), self.heap(s2, h)
            if a.eq(b):
                st.heaps[h] = a
            else:
                c = fresh("H_" + h, a.sort())
                st.pc.append(z3.Implies(g1, c == a))
                st.pc.append(z3.Implies(g2, c == b))
                st.heaps[h] = c
        for gn in set(s1.ghosts) | set(s2.ghosts):
            a, b = self.ghost(s1, gn).t, self.ghost(s2, gn).t
            st.ghosts[gn] = self.name_if((g1, g2), a, b, st.pc)
        if s1.A.eq(s2.A):
            st.A = s1.A
        else:
            st.A = fresh("A", z3.IntSort())
            st.pc.append(st.A == z3.If(g1, s1.A, s2.A))
        env = {}
        for k in e1:
            if k in e2:
                try:
                    env[k] = self.merge_val((g1, g2), e1[k], e2[k], st.pc)
                except Unsupported:
                    if k.startswith("#") or k.startswith("r"):
                        raise
        return st, env

    def merge_items(self, items):
        out = []
        for it in items:
            for j in range(len(out)):
                try:
                    out[j] = self.merge2(out[j], it)
                    break
                except Unsupported:
                    continue
            else:
                out.append(it)
        return out

    def merge_rets(self, rets):
        if len(rets) <= 1:
            return rets
        items = [(st, {"r%d" % i: v for i, v in enumerate(vs)}) for st, vs in rets]
        items = self.merge_items(items)
        n = len(rets[0][1])
        return [(st, [env["r%d" % i] for i in range(n)]) for st, env in items]

    # ---------------------------------------------------------------- loops
    def dry_region(self, fn, fr, st, env, blocks, start):
        """Visits every block once, to learn which cells and heaps it may write."""
        loops, rpo = loops_of(fn)
        todo, seen = [start], set()
        reach = set()
        stack = [start]
        while stack:
            x = stack.pop()
            if x in reach or (blocks is not None and x not in blocks):
                continue
            reach.add(x)
            stack.extend(fn["blocks"][x]["succs"])
        rets = []
        for b in sorted(reach, key=lambda x: rpo[x]):
            blk = fn["blocks"][b]
            for i in blk["instrs"]:
                op = i["op"]
                if op == "Phi":
                    got = None
                    for e in i["edges"]:
                        try:
                            v = self.operand(e, fr, env, st)
                        except Unsupported:
                            continue
                        if isinstance(v, (ClosureV, AddrV, MapConst)):
                            got = v
                    if i["reg"] in env and not isinstance(env[i["reg"]], (Z, SliceV)):
                        continue
                    env[i["reg"]] = got if got is not None else self.havoc(self.p.ty(i["t"]), "dry", st)
                    continue
                if op in ("If", "Jump", "Panic"):
                    continue
                try:
                    if op == "Return":
                        rets.append([self.operand(x, fr, env, st) for x in i["xs"]])
                        continue
                    if op in ("Call", "RunDefers"):
                        vs = self.do_call(fn, fr, i, st, env)
                        v = vs[0][1] if vs else (self.havoc(self.p.ty(i["t"]), "dry", st) if "reg" in i else None)
                    else:
                        v = self.exec_instr(fn, fr, i, st, env)
                except Unsupported as ex:
                    if "not available" in str(ex):
                        v = self.havoc(self.p.ty(i["t"]), "dry", st) if "reg" in i and self.p.ty(i["t"]).u().kind != "tuple" else None
                        if "reg" not in i:
                            continue
                    else:
                        raise
                if "reg" in i:
                    env[i["reg"]] = v
        st.pc = st.pc[:self.drypc] if hasattr(self, "drypc") else st.pc
        if not rets:
            return []
        out = []
        for k, v in enumerate(rets[0]):
            if isinstance(v, (ClosureV, AddrV, MapConst)) or v is None:
                out.append(v)
            else:
                out.append(self.havoc(v.ty, "dry", st) if not isinstance(v, TupleV) else v)
        return [(st, out)]

    def do_loop(self, fn, fr, hdr, st0, env0):
        loops, _ = loops_of(fn)
        body = loops[hdr]
        blk = fn["blocks"][hdr]
        # what the body may write
        d = st0.copy()
        d.wr = set()
        denv = dict(env0)
        for i in blk["instrs"]:
            if i["op"] != "Phi":
                break
            v = env0[i["reg"]]
            if isinstance(v, (Z, SliceV)):
                denv[i["reg"]] = self.havoc(self.p.ty(i["t"]), "dry", d)
        fc = self.fcount
        dep = self.depth
        self.dry_region(fn, fr, d, denv, body, hdr)
        self.depth = dep
        wr = d.wr
        st = st0.copy()
        env = dict(env0)
        A_in = st0.A
        st.A = fresh("A", z3.IntSort())
        st.pc.append(st.A >= A_in)
        phi = []
        for i in blk["instrs"]:
            if i["op"] != "Phi":
                break
            v = env0[i["reg"]]
            t = self.p.ty(i["t"])
            if isinstance(v, (Z, SliceV)):
                env[i["reg"]] = self.havoc(v.ty if isinstance(v, Z) and v.ty.kind != "basic" else t, "phi_" + i.get("comment", ""), st)
                phi.append(i["reg"])
            elif isinstance(v, StructV):
                env[i["reg"]] = self.havoc(t, "phi", st)
                phi.append(i["reg"])
            else:
                raise Unsupported("loop variable of kind " + type(v).__name__)
        for kind, n in sorted(wr, key=str):
            if kind == "cell" and n in st0.cells:
                old = st0.cells[n]
                if isinstance(old, (Z, SliceV, StructV)):
                    st.cells[n] = self.havoc(st0.ctypes[n], "cell", st)
                    if st0.wr is not None:
                        st0.wr.add((kind, n))
                else:
                    raise Unsupported("loop changes a %s variable" % type(old).__name__)
            elif kind == "heap":
                h = fresh("H_" + n, self.base[n][1])
                st.heaps[n] = h
                f = self.heap_typing(n, h, st.A)
                if f is not None:
                    st.pc.append(f)
            elif kind == "ghost":
                t = self.rtype(self.specs.ghostvars[n])
                st.ghosts[n] = fresh("G_" + n, self.rsort(t))
        L = Loop("%s#%d" % (fn["name"], hdr))
        self.loops.append(L)
        L.pc0 = list(st0.pc)
        L.where = self.blockpos(fn, hdr)
        mk = self.candidates(fn, fr, L, st0, env0, st, env, phi, wr)
        L.mk = mk
        for j, (text, f) in enumerate(mk):
            try:
                form = f(st, env)
                ent = f(st0, env0)
            except SpecError:
                continue
            if form is None or z3.is_true(form):
                continue
            g = z3.Bool("inv!%d!%d" % (len(self.loops), j))
            L.cands.append((g, text, ent, f))
            if form.eq(ent):
                L.still.add(g.get_id())     # nothing in it changes in the loop
            st.pc.append(z3.Implies(g, form))
        rets, exits, backs = self.exec_region(fn, fr, [(hdr, st, env)], body, hdr)
        for bst, benv in backs:
            L.backs.append((list(bst.pc), [c[3](bst, benv) for c in L.cands]))
        # loop local registers do not survive except through the environment itself
        return rets, exits

    def blockpos(self, fn, b):
        for i in fn["blocks"][b]["instrs"]:
            if i.get("pos"):
                return i["pos"]
        return fn["pos"]

    def candidates(self, fn, fr, L, st0, env0, st, env, phi, wr):
        """instances of the invariant templates for this loop: [(text, formula(st, env))]"""
        out = []
        # built in: heaps are only extended (frame towards loop entry and function entry)
        frames = not any(cl.text == "noframes" for cl in self.active(self.cur_contract.clauses, "option")) if self.cur_contract else True
        only = [cl.text[7:] for cl in self.active(self.cur_contract.clauses, "option") if cl.text.startswith("frames ")] if self.cur_contract else []
        only = {h.strip() for t in only for h in t.split(",")}
        for kind, n in sorted(wr, key=str):
            if kind != "heap" or n.startswith("#") or not (frames or n in only):
                continue
            for lab, h0, A in (("entry", self.heap(st0, n), st0.A), ("old", self.base[n][0], self.A0)):
                def fr_(s, e, n=n, h0=h0, A=A):
                    x = z3.Int("fx")
                    h = self.heap(s, n)
                    if h.eq(h0):
                        return z3.BoolVal(True)
                    return z3.ForAll([x], z3.Implies(z3.And(0 < x, x < A), h[x] == h0[x]), patterns=[h[x]])
                out.append(("%s unchanged since %s" % (n, lab), fr_))
        # variables in scope
        cells = [k for k in st0.cells if isinstance(st0.cells[k], (Z, SliceV))]
        wcells = [k for kind, k in wr if kind == "cell"]
        vals = []
        for r in phi:
            vals.append(("phi", r, env[r]))
        for k in sorted(wcells, key=str):
            if k in st0.cells:
                v = st0.cells[k]
                if isinstance(v, StructV):
                    continue
                vals.append(("cell", k, v))
        roles = {}
        for kind, k, v in vals:
            roles.setdefault(self.role(v), []).append((kind, k))
        # built in: counters are not negative, lists that grow are not the caller's
        for kind, k, v in vals:
            get = (lambda s, e, kind=kind, k=k: e[k] if kind == "phi" else s.cells[k])
            if isinstance(v, SliceV):
                out.append(("%s is new" % k, lambda s, e, get=get: z3.Or(get(s, e).arr >= self.A0, get(s, e).cap == 0)))
            elif isinstance(v, Z) and v.t.sort() == z3.IntSort() and v.ty.u().kind == "basic":
                if frames: out.append(("%s >= -1" % k, lambda s, e, get=get: get(s, e).t >= -1))
                if frames: out.append(("%s >= 0" % k, lambda s, e, get=get: get(s, e).t >= 0))
        # unmodified cells and other registers may be mentioned too
        extra = {}
        for k in cells:
            if k not in wcells:
                extra.setdefault(self.role(st0.cells[k]), []).append(("cell", k))
        for r, v in env0.items():
            if r not in phi and isinstance(v, (Z, SliceV)) and not r.startswith("#"):
                extra.setdefault(self.role(v), []).append(("reg", r))
        top = self.cur_contract
        prefer = {}                        # option prefer $n phi, $h cell: which values to try, when there are such
        for cl in (self.active(top.clauses, "option") if top else []):
            if cl.text.startswith("prefer "):
                prefer.update(x.split() for x in cl.text[7:].split(","))
        for cl in (self.active(top.clauses, "inv") if top else []):
            metas = cl.metas
            doms = []
            for n, tn in metas:
                loc = tn.endswith("'")
                t = tn
                if t == "addr":
                    doms.append([None])
                    continue
                rt = self.rtype(t, self.cur_fn)
                key = self.rolekey(rt)
                ds = list(roles.get(key, []))
                if n.endswith("_"):
                    ds = ds + extra.get(key, [])
                ds = [d for d in ds if d[0] == prefer.get(n, d[0])] or ds
                doms.append(ds)
            import itertools
            for combo in itertools.product(*doms):
                if len(set(combo)) < len(combo):
                    continue
                def fm(s, e, cl=cl, combo=combo):
                    names = dict(self.cur_names)
                    en = {}
                    for (n, tn), (kind, k) in zip(cl.metas, combo):
                        names[n] = e[k] if kind in ("phi", "reg") else s.cells[k]
                        en[n] = env0[k] if kind in ("phi", "reg") else st0.cells[k]
                    c = Ctx(s, self.st_old, names, self.cur_fn, entry=(st0, en))
                    return self.evb(cl.expr, c)
                out.append((cl.text + " " + str([k for _, k in combo]), fm))
        return out

    def role(self, v):
        if isinstance(v, IterV):
            return "iter"
        return self.rolekey(v.ty)

    def rolekey(self, t):
        if t.kind == "basic" and t.name in ("int", "uint", "uint8", "byte", "int32", "int64", "untyped int", "rune"):
            return "int" if t.name not in ("uint8", "byte") else "byte"
        if t.kind == "set":
            return "set"
        return re.sub(r"tparam:", "", t.s)

    def active(self, clauses, kw):
        for c in clauses:
            if c.kw == kw and (not c.labels or self.prop is None or self.prop in c.labels):
                yield c
