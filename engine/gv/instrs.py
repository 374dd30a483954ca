"""Rules for the individual SSA instructions and calls."""
import z3
from .base import *
from .sym import State, Ob, INT, BOOL, STRING, BYTE, I, raw, T_and
from .evalspec import Ctx, SpecError
from .execu import loops_of


class InstrMixin:
    def exec_instr(self, fn, fr, i, st, env):
        op = i["op"]
        pos = i.get("pos") or fn["pos"]
        V = lambda x: self.operand(x, fr, env, st)
        ty = self.p.ty(i["t"]) if "t" in i else None
        if op == "Alloc":
            t = ty.elem
            if self.is_object(t):
                r = self.new_ref(st, t)
                for fn_, ft in t.u().fields:
                    h = self.field_heap(self.objname(t), fn_, ft)
                    self.set_heap(st, h, z3.Store(self.heap(st, h), r, self.term(self.zero(ft))))
                self.name_alloc(st)
                for cl in (self.active(self.cur_contract.clauses, "newghost") if self.cur_contract else []):
                    if (self.objname(t), cl.lhs[2]) in self.specs.ghostfields:
                        self.ghost_assign(cl, st, self.st_old, {**self.cur_names, "self": Z(r, ty)}, self.cur_fn)
                return Z(r, ty)
            if t.u().kind == "array" and self.sliced(fn, i["reg"]):
                r = self.new_ref(st, t)
                h = self.elem_heap(t.u().elem)
                z = z3.K(z3.IntSort(), self.term(self.zero(t.u().elem)))
                self.set_heap(st, h, z3.Store(self.heap(st, h), r, z))
                self.name_alloc(st)
                return Z(r, ty)
            cid = "%s@%s@%d" % (i["reg"], fn["name"], fr.id)
            if cid in st.cells:
                # executed again (in a loop): a new variable
                cid = cid + "~" + str(self.fcount)
                self.fcount += 1
            st.cells[cid] = self.zero(t)
            st.ctypes[cid] = t
            self.cellnames[cid] = i.get("comment", "")
            return AddrV("cell", cid, (), ty=t)
        if op == "Store":
            self.store(st, self.addr_ok(V(i["addr"]), st, pos), V(i["val"]), pos)
            return None
        if op == "UnOp":
            x = V(i["x"])
            if i["tok"] == "*":
                return self.load(st, self.addr_ok(x, st, pos))
            if i["tok"] == "!":
                return Z(z3.Not(x.t), ty)
            if i["tok"] == "-":
                return Z(-x.t, ty)
            raise Unsupported("operator " + i["tok"])
        if op == "BinOp":
            return self.binop(i["tok"], V(i["x"]), V(i["y"]), ty, st)
        if op == "FieldAddr":
            x = V(i["x"])
            bt = self.p.ty(i["x"]["t"]).u()
            fname, ft = bt.elem.u().fields[i["field"]]
            if isinstance(x, AddrV):
                if x.kind == "cell":
                    return AddrV("cell", x.a, (x.b or ()) + (("f", i["field"]),), ty=ft)
                raise Unsupported("field of " + x.kind)
            self.safety(st, x.t != 0, "nil pointer dereference", pos)
            h = self.field_heap(self.objname(bt.elem), fname, ft)
            return AddrV("field", h, x.t, ty=ft)
        if op == "Field":
            return V(i["x"]).fs[i["field"]]
        if op == "IndexAddr":
            x, k = V(i["x"]), V(i["i"])
            if isinstance(x, SliceV):
                self.safety(st, z3.And(k.t >= 0, k.t < x.len), "index out of range", pos)
                et = x.ty.u().elem
                return AddrV("elem", self.elem_heap(et), x.arr, ix(x.off, k.t), ty=et)
            if isinstance(x, AddrV) and x.kind == "cell":
                if not z3.is_int_value(k.t):
                    raise Unsupported("array variable indexed by a variable")
                t = self.p.ty(i["t"]).elem
                return AddrV("cell", x.a, (x.b or ()) + (("i", k.t.as_long()),), ty=t)
            if isinstance(x, AddrV) and x.kind == "global":
                v = self.global_value(x.a, x.ty.elem)
                cid = "tmp%d" % self.fcount
                self.fcount += 1
                st.cells[cid] = v
                st.ctypes[cid] = v.ty
                return AddrV("cell", cid, (("i", k.t.as_long()),), ty=v.ty.u().elem)
            if isinstance(x, Z):
                at = self.p.ty(i["x"]["t"]).u().elem.u()
                self.safety(st, z3.And(x.t != 0, k.t >= 0, k.t < at.len), "index out of range", pos)
                return AddrV("elem", self.elem_heap(at.elem), x.t, ix(off0, k.t), ty=at.elem)
            raise Unsupported("IndexAddr")
        if op == "Index":
            x, k = V(i["x"]), V(i["i"])
            if x.t.sort() == Str:
                self.safety(st, z3.And(k.t >= 0, k.t < slen(x.t)), "index out of range", pos)
                v = Z(sat(x.t, k.t), ty)
                self.type_facts(v, st)
                return v
            return self.comp(x, "i", k.t.as_long())
        if op == "Lookup":
            x, k = V(i["x"]), V(i["i"])
            if isinstance(x, Z) and x.t.sort() == Str:
                self.safety(st, z3.And(k.t >= 0, k.t < slen(x.t)), "index out of range", pos)
                v = Z(sat(x.t, k.t), ty)
                self.type_facts(v, st)
                return v
            et = self.p.ty(i["x"]["t"]).u().elem
            ok = self.contains(st, x, k)
            if isinstance(x, MapConst):
                if all(z3.is_int_value(self.term(kk)) for kk, _ in x.items) and z3.is_int_value(self.term(k)):
                    hit = [vv for kk, vv in x.items if self.term(kk).eq(self.term(k))]
                    v, ok = (hit[0], z3.BoolVal(True)) if hit else (self.zero(et), z3.BoolVal(False))
                else:
                    v = None
                    if et.u().kind == "struct":
                        v = self.zero(et)
                    elif et.u().kind != "map":
                        v = self.ev_index(("index", ("val", x), ("val", k)), Ctx(st, st, {}))
                    else:
                        raise Unsupported("lookup of a map in a constant map")
            elif et.u().kind == "struct":
                v = self.zero(et)
            else:
                d, h = self.map_heaps(x.ty)
                v = self.val(self.named(z3.If(ok, self.heap(st, h)[x.t][self.term(k)], self.term(self.zero(et))), st), et)
                self.type_facts(v, st)
            return TupleV([v, Z(ok, BOOL)]) if i["commaok"] else v
        if op == "Extract":
            return V(i["x"]).vs[i["i"]]
        if op in ("ChangeType", "ChangeInterface"):
            x = V(i["x"])
            return self.retype(x, ty)
        if op == "MakeInterface":
            x = V(i["x"])
            xt = self.p.ty(i["x"]["t"])
            if xt.u().kind == "pointer" and isinstance(x, Z):
                return Z(x.t, ty)
            v = Z(fresh("iface", z3.IntSort()), ty)
            st.pc.append(v.t > 0)
            return v
        if op == "MakeClosure":
            f = self.p.funcs[i["fn"]["n"]]
            return ClosureV(i["fn"]["n"], [V(b) for b in i["bind"]], ty)
        if op == "MakeMap":
            r = self.new_ref(st, ty)
            d, h = self.map_heaps(ty)
            ks = sort_of(ty.u().key)
            self.set_heap(st, d, z3.Store(self.heap(st, d), r, z3.K(ks, z3.BoolVal(False))))
            if st.wr is not None:
                st.wr.add(("heap", h))
            self.name_alloc(st)
            return Z(r, ty)
        if op == "MapUpdate":
            m, k, v = V(i["m"]), V(i["key"]), V(i["val"])
            if isinstance(m, MapConst):
                raise Unsupported("update of a package level map")
            self.safety(st, m.t != 0, "write to a nil map", pos)
            d, h = self.map_heaps(m.ty)
            D, H = self.heap(st, d), self.heap(st, h)
            self.set_heap(st, d, z3.Store(D, m.t, z3.Store(D[m.t], self.term(k), z3.BoolVal(True))))
            self.set_heap(st, h, z3.Store(H, m.t, z3.Store(H[m.t], self.term(k), self.term(v))))
            return None
        if op == "MakeSlice":
            n, c = V(i["len"]), V(i["cap"])
            self.safety(st, z3.And(n.t >= 0, n.t <= c.t), "makeslice: length out of range", pos)
            r = self.new_ref(st, ty)
            et = ty.u().elem
            h = self.elem_heap(et)
            self.set_heap(st, h, z3.Store(self.heap(st, h), r, z3.K(z3.IntSort(), self.term(self.zero(et)))))
            self.name_alloc(st)
            return SliceV(r, off0, n.t, c.t, ty)
        if op == "Slice":
            return self.slice_op(i, V, ty, st, pos)
        if op == "Convert":
            return self.convert(V(i["x"]), self.p.ty(i["x"]["t"]), ty, st)
        if op == "Range":
            x = V(i["x"])
            cid = "iter@%s@%s@%d" % (i["reg"], fn["name"], fr.id)
            while cid in st.cells:
                cid += "~"
            if isinstance(x, Z) and x.t.sort() == Str:
                st.cells[cid], st.ctypes[cid] = Z(I(0), INT), INT
                return IterV("str", x, cid, ty)
            kt = self.p.ty(i["x"]["t"]).u().key
            t = Ty("set", "set[%s]" % kt.s, elem=kt)
            st.cells[cid], st.ctypes[cid] = Z(z3.K(sort_of(kt), z3.BoolVal(False)), t), t
            return IterV("map", x, cid, self.p.ty(i["x"]["t"]))
        if op == "Next":
            it = V(i["x"])
            cur = st.cells[it.cell]
            if st.wr is not None:
                st.wr.add(("cell", it.cell))
            if it.kind == "str":
                s, p = it.x.t, cur.t
                ok = p < slen(s)
                st.cells[it.cell] = Z(z3.If(ok, p + rwidth(s, p), p), INT)
                return TupleV([Z(ok, BOOL), Z(p, INT), Z(rcode(s, p), INT)])
            m = it.x
            kt = it.ty.u().key
            et = it.ty.u().elem
            ok = fresh("more", z3.BoolSort())
            k = self.havoc(kt, "key", st)
            kk = z3.Const(fresh_name("q_k"), sort_of(kt))
            if isinstance(m, MapConst):
                iq, self.in_quant = self.in_quant, True
                dom = z3.Or([self.eq(Z(kk, kt), a) for a, _ in m.items] or [z3.BoolVal(False)])
                self.in_quant = iq
                domk = z3.Or([self.eq(k, a) for a, _ in m.items] or [z3.BoolVal(False)])
                if et.u().kind == "struct":
                    v = self.zero(et)
                else:
                    v = self.ev_index(("index", ("val", m), ("val", k)), Ctx(st, st, {}))
                st.pc.append(z3.Implies(z3.Not(ok), z3.And([cur.t[self.term(a)] for a, _ in m.items])))
            else:
                d, h = self.map_heaps(it.ty)
                D = self.heap(st, d)
                domk = z3.And(m.t != 0, D[m.t][self.term(k)])
                dom = z3.And(m.t != 0, D[m.t][kk])
                if et.u().kind == "struct":
                    v = self.zero(et)
                else:
                    v = self.val(self.heap(st, h)[m.t][self.term(k)], et)
                    self.type_facts(v, st)
                st.pc.append(z3.Implies(z3.Not(ok), z3.ForAll([kk], z3.Implies(dom, cur.t[kk]),
                                                              patterns=[cur.t[kk], D[m.t][kk]] if not z3.is_K(cur.t) else [D[m.t][kk]])))
            st.pc.append(z3.Implies(ok, z3.And(domk, z3.Not(cur.t[self.term(k)]))))
            st.cells[it.cell] = Z(self.named(z3.If(ok, z3.Store(cur.t, self.term(k), z3.BoolVal(True)), cur.t), st), cur.ty)
            return TupleV([Z(ok, BOOL), k, v])
        if op == "Defer":
            env["#defers"] = env["#defers"] + (self.bindcall(i["call"], fr, env, st),)
            return None
        if op == "TypeAssert":
            raise Unsupported("type assertion")
        raise Unsupported("instruction " + op)

    def addr_ok(self, a, st, pos):
        if isinstance(a, AddrV):
            if a.nil is not None:
                self.safety(st, z3.Not(a.nil), "nil pointer dereference", pos)
            return a
        if isinstance(a, Z) and a.ty.u().kind == "pointer":
            t = a.ty.u().elem
            if self.is_object(t):
                self.safety(st, a.t != 0, "nil pointer dereference", pos)
                return AddrV("obj", a.t, ty=t)
        raise Unsupported("address " + repr(a))

    def sliced(self, fn, reg):
        c = fn.setdefault("_sliced", None)
        if c is None:
            c = set()
            for b in fn["blocks"]:
                for i in b["instrs"]:
                    if i["op"] == "Slice" and i["x"]["k"] == "reg":
                        c.add(i["x"]["n"])
            fn["_sliced"] = c
        return reg in c

    def retype(self, x, ty):
        if isinstance(x, Z):
            return Z(x.t, ty)
        if isinstance(x, SliceV):
            return SliceV(x.arr, x.off, x.len, x.cap, ty)
        if isinstance(x, StructV):
            return StructV(x.fs, ty)
        if isinstance(x, MapConst):
            return MapConst(x.items, ty, x.name)
        if isinstance(x, ClosureV):
            return ClosureV(x.fn, x.binds, ty)
        return x

    def binop(self, tok, x, y, ty, st):
        if tok in ("==", "!="):
            e = self.eq(x, y)
            return Z(e if tok == "==" else z3.Not(e), ty)
        a, b = self.term(x), self.term(y)
        if a.sort() == Str:
            if tok == "+":
                la, lb = lit_of(a), lit_of(b)
                if la is not None and lb is not None:
                    return Z(lit(la + lb), ty)
                return Z(scat(a, b), ty)
            raise Unsupported("string comparison " + tok)
        if a.sort() != z3.IntSort():
            raise Unsupported("operator " + tok)
        if tok in ("+", "-", "*"):
            r = {"+": a + b, "-": a - b, "*": a * b}[tok]
            return Z(z3.simplify(r), ty)
        if tok in ("<", "<=", ">", ">="):
            return Z({"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[tok], ty)
        if tok == "/" and z3.is_int_value(b) and b.as_long() > 0:
            # Go truncates towards zero
            return Z(z3.If(a >= 0, a / b, -((-a) / b)), ty)
        if tok == "%" and z3.is_int_value(b) and b.as_long() > 0:
            return Z(z3.If(a >= 0, a % b, -((-a) % b)), ty)
        raise Unsupported("operator " + tok)

    def slice_op(self, i, V, ty, st, pos):
        x = V(i["x"])
        lo = V(i["lo"]).t if "lo" in i else I(0)
        if isinstance(x, Z) and x.t.sort() == Str:
            hi = V(i["hi"]).t if "hi" in i else slen(x.t)
            self.safety(st, z3.And(0 <= lo, lo <= hi, hi <= slen(x.t)), "slice bounds out of range", pos)
            return Z(ssub(x.t, lo, hi), ty)
        if isinstance(x, Z):
            if "max" in i:
                raise Unsupported("three-index slice of an array")
            at = self.p.ty(i["x"]["t"]).u().elem.u()
            hi = V(i["hi"]).t if "hi" in i else I(at.len)
            self.safety(st, z3.And(0 <= lo, lo <= hi, hi <= at.len), "slice bounds out of range", pos)
            if st.wr is None and at.len <= 8:
                # a list literal: its elements get names, so that facts about all elements find them
                h = self.elem_heap(at.elem)
                H = self.heap(st, h)
                hn = fresh("H_" + h, H.sort())
                st.pc.append(hn == H)
                st.heaps[h] = hn
                for j in range(at.len):
                    st.pc.append(fresh("lit_el", H.sort().range().range()) == hn[x.t][ix(off0, I(j))])
            return SliceV(x.t, reoff(off0, lo), z3.simplify(hi - lo), z3.simplify(at.len - lo), ty)
        if isinstance(x, SliceV):
            hi = V(i["hi"]).t if "hi" in i else x.len
            mx = V(i["max"]).t if "max" in i else x.cap
            self.safety(st, z3.And(0 <= lo, lo <= hi, hi <= mx, mx <= x.cap), "slice bounds out of range", pos)
            return SliceV(x.arr, reoff(x.off, lo), z3.simplify(hi - lo), z3.simplify(mx - lo), ty)
        raise Unsupported("slice of %r" % x)

    def convert(self, x, ft, tt, st):
        fu, tu = ft.u(), tt.u()
        if tu.kind == "slice" and isinstance(x, Z) and x.t.sort() == Str:
            r = self.new_ref(st, tt)
            h = self.elem_heap(tu.elem)
            c = fresh("bytes", z3.ArraySort(z3.IntSort(), z3.IntSort()))
            j = z3.Int("j")
            st.pc.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < slen(x.t)), c[idx(off0, j)] == sat(x.t, j)), patterns=[c[idx(off0, j)]]))
            st.pc.append(z3.ForAll([j], z3.And(c[j] >= 0, c[j] <= 255), patterns=[c[j]]))
            st.pc.append(sbytes(c, off0, slen(x.t)) == x.t)
            self.set_heap(st, h, z3.Store(self.heap(st, h), r, c))
            self.name_alloc(st)
            return SliceV(r, off0, slen(x.t), slen(x.t), tt)
        if fu.kind == "slice" and tu.kind == "basic" and tu.name == "string":
            h = self.elem_heap(fu.elem)
            return Z(sbytes(self.heap(st, h)[x.arr], x.off, x.len), tt)
        if tu.kind == "basic" and fu.kind == "basic":
            if tu.name == "string" and fu.name != "string":
                if z3.is_int_value(x.t):
                    return Z(lit(chr(x.t.as_long()).encode()), tt)
                return Z(sbyte(x.t), tt)
            if sort_of(ft) == sort_of(tt):
                n1, n2 = fu.name, tu.name
                rng = {"uint8": 1, "byte": 1, "int32": 4, "rune": 4, "int": 8, "int64": 8, "uint": 8, "untyped rune": 4, "untyped int": 8, "string": 0}
                if n1 == n2 or rng.get(n1, 9) < rng.get(n2, 0) or {n1, n2} <= {"int", "int64", "uint"}:
                    return Z(x.t, tt)
        raise Unsupported("conversion %s to %s" % (ft.s, tt.s))

    # ---------------------------------------------------------------- calls
    def bindcall(self, c, fr, env, st):
        """evaluates callee and arguments of a call instruction"""
        args = [self.operand(a, fr, env, st) for a in c["args"]]
        if "invoke" in c:
            return ("invoke", c["invoke"], self.operand(c["recv"], fr, env, st), args, c)
        return ("call", self.operand(c["fn"], fr, env, st), None, args, c)

    def do_call(self, fn, fr, i, st, env):
        pos = i.get("pos") or fn["pos"]
        if i["op"] == "RunDefers":
            states = [st]
            ds = env["#defers"]
            env["#defers"] = ()
            for d in reversed(ds):
                nxt = []
                for s in states:
                    for s2, _ in self.perform(d, s, pos, None):
                        nxt.append(s2)
                states = nxt
            return [(s, None) for s in states]
        b = self.bindcall(i["call"], fr, env, st)
        rt = self.p.ty(i["t"])
        out = []
        for s, vs in self.perform(b, st, pos, rt):
            if rt.kind == "tuple":
                out.append((s, TupleV(vs)))
            else:
                out.append((s, vs[0] if vs else None))
        return out

    def perform(self, b, st, pos, rt):
        """returns [(state, [results])]"""
        kind, f, recv, args, c = b
        if kind == "invoke":
            it = self.p.ty(c["recv"]["t"])
            im = self.impl_of(it)
            if not im:
                return self.ext_invoke(it, f, recv, args, st, pos, rt)
            self.safety(st, recv.t != 0, "method call on a nil interface", pos)
            target = im[1][f]
            tf = self.p.funcs[target]
            rty = self.p.ty(tf["params"][0]["t"])
            return self.call_named(target, [Z(recv.t, rty)] + args, st, pos, rt)
        if isinstance(f, dict):
            return self.builtin(f["n"], args, st, pos, rt, c)
        if isinstance(f, ClosureV):
            return self.call_named(f.fn, args, st, pos, rt, f.binds)
        if isinstance(f, Z):
            s = z3.simplify(f.t)
            if z3.is_int_value(s) and 10000 <= s.as_long() < 10000 + len(self.closures):
                cl = self.closures[s.as_long() - 10000]
                return self.call_named(cl.fn, args, st, pos, rt, cl.binds)
            return self.call_unknown(f, args, st, pos, rt, self.p.ty(c["sig"]))
        raise Unsupported("call of %r" % (f,))

    def contract_for(self, name):
        f = self.p.funcs.get(name)
        c = self.specs.contracts.get(name)
        if c is None and f is not None and f.get("origin"):
            c = self.specs.contracts.get(f["origin"])
        if c is not None and c.labels and self.prop is not None and self.prop not in c.labels:
            c = None
        if c is not None and any(cl.text == "inline" for cl in self.active(c.clauses, "option")):
            c = None
        if c is not None and c.kind == "func" and not any(True for _ in self.active(c.clauses, "ensures")) and \
                not any(True for _ in self.active(c.clauses, "safety")) and not self.is_havoc(c):
            c = None
        if c is None and f is not None:
            c = self.default_contract(name, f)
        return c

    def is_havoc(self, c):
        """`option havoc`: nothing at all is assumed about what the function does (but that it returns)"""
        return any(cl.text.strip() == "havoc" for cl in self.active(c.clauses, "option"))

    def ghosts_of(self, name):
        """ghost variables that a call of the function may change"""
        out, seen, stack = set(), set(), [name]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.startswith("psig:"):          # who passes a function counts it
                continue
            if x.startswith("sig:"):
                c = self.specs.functypes.get(x.split(":", 1)[1])
                if c is None:
                    return set(self.specs.ghostvars)
                stack.extend(self.modsets.bysig.get(x.split(":", 1)[1], []))
            else:
                c = self.specs.contracts.get(x) or self.specs.contracts.get((self.p.funcs.get(x) or {}).get("origin"))
                stack.extend(self.modsets.calls.get(x, ()))
            if c is not None and c.labels and self.prop is not None and self.prop not in c.labels:
                continue
            for cl in (c.clauses if c else []):
                if cl.labels and self.prop is not None and self.prop not in cl.labels:
                    continue
                if cl.kw == "modifies":
                    out |= set(self.specs.ghostvars) if "everything" in cl.text else {h.strip() for h in cl.text.split(",")} & set(self.specs.ghostvars)
                if cl.kw == "ghost":
                    l = cl.lhs
                    while l[0] in ("index", "field"):
                        l = l[1]
                    out |= {l[1]} & set(self.specs.ghostvars)
        return out

    def takes_funcs(self, args):
        return any(isinstance(a, ClosureV) or (isinstance(a, Z) and a.ty is not None and a.ty.kind not in ("set", "raw", "real", "dict") and a.ty.u().kind == "func")
                   or (isinstance(a, SliceV) and a.ty.u().elem.u().kind == "func") for a in args)

    def ft_active(self, c):
        return not (c.labels and self.prop is not None and self.prop not in c.labels)

    def inline_here(self, name):
        """`option inlines F`: the contract being verified looks through F's contract"""
        if self.cur_contract is None:
            return False
        for cl in self.active(self.cur_contract.clauses, "option"):
            if cl.text.startswith("inlines ") and name in [x.strip() for x in cl.text[8:].split(",")]:
                return True
        return False

    def default_contract(self, name, f):
        if f.get("parent") or f["synthetic"] and not f.get("origin"):
            return None
        for d in self.specs.defaults:
            if d.labels and self.prop is not None and self.prop not in d.labels:
                continue
            if name in [x.strip() for cl in d.get("except") for x in cl.text.split(",")]:
                continue
            pk = d.target.split()
            if self.pkg_of(name) != pk[0]:
                continue
            if len(pk) == 1 or "recursive" in pk and self.is_recursive(name) or \
                    "taking" in pk and any(self.tyname(self.p.ty(q["t"])) == pk[pk.index("taking") + 1] for q in f["params"]):
                return d
        return None

    def pkg_of(self, name):
        return name.lstrip("(*").split(".")[0]

    def is_recursive(self, name):
        if not hasattr(self, "_rec"):
            self._rec = {}
        if name in self._rec:
            return self._rec[name]
        seen, stack = set(), list(self.modsets.calls.get(name, ()))
        r = False
        while stack:
            x = stack.pop()
            if x == name:
                r = True
                break
            if x in seen or x.startswith(("sig:", "psig:")):
                continue
            seen.add(x)
            stack.extend(self.modsets.calls.get(x, ()))
        self._rec[name] = r
        return r

    def call_named(self, name, args, st, pos, rt, binds=()):
        f = self.p.funcs.get(name)
        if f is None or not f["blocks"]:
            return self.external(name, args, st, pos, rt)
        c = self.contract_for(name) if not f.get("parent") and not self.inline_here(name) else None
        if c is not None and not (name == self.cur_name and self.depth == 0):
            return self.apply_contract(c, name, f, args, st, pos)
        self.inlined.add(name)
        rets = self.exec_fn(f, args, binds, st)
        if st.wr is None:
            rets = self.merge_rets(rets)
        return rets

    def bind_names(self, c, f, args, results=None):
        names = {}
        ps = c.params
        if c.default or ps is None:
            ps = [p["n"] for p in f["params"]]
            if c.default:
                names["#args"] = args
        if len(ps) != len(args):
            raise SpecError("%s: contract of %s names %d parameters, the function has %d" % (c.where, f["name"], len(ps), len(args)))
        for n, a in zip(ps, args):
            names[n] = a
        if results is not None:
            rs = c.results or []
            for k, r in enumerate(results):
                names["result%d" % k] = r
                if k < len(rs):
                    names[rs[k]] = r
            if len(results) == 1:
                names["result"] = results[0]
        return names

    def lets(self, c, names, st, fn):
        """`let` clauses: evaluated in the pre-state"""
        for cl in self.active(c.clauses, "let"):
            names[cl.name] = self.ev(cl.expr, Ctx(st, st, names, fn))
        return names

    def modifies(self, c, fn=None, new=False):
        out = set()
        if not new and c.kind == "func" and not any(True for _ in self.active(c.clauses, "ensures")) and fn is not None and fn["name"] in self.p.funcs:
            # only run-time safety is asked for here: nothing is said about what changes
            out |= {h for h in self.modsets.of_open(fn["name"]) if not h.startswith("#")}
        keep = set()
        for cl in self.active(c.clauses, "modifies"):
            for h in cl.text.split(","):
                h = h.strip()
                if h.startswith("-"):
                    keep.add(h[1:])         # what "heaps" leaves out
                    continue
                if fn is not None and "<T>" in h:
                    h = h.replace("<T>", "<%s>" % self.tyname(self.rtype("T", fn)))
                if h in ("everything", "heaps"):
                    if not new and fn is not None:
                        out |= {x for x in self.modsets.of_open(fn["name"]) if not x.startswith("#")} | (set(self.specs.ghostvars) if h == "everything" else set())
                elif h and h != "nothing" and h.startswith("new ") == new:
                    out.add(h[4:] if new else h)
        return out - keep

    def apply_contract(self, c, name, f, args, st, pos):
        self.contracts_used.add(name)
        pre = st.copy()
        names = self.bind_names(c, f, args)
        self.lets(c, names, pre, f)
        if st.wr is None:
            for cl in self.active(c.clauses, "requires"):
                self.oblige(st, "precondition of %s: %s" % (name, cl.name or cl.text), self.evb(cl.expr, Ctx(st, pre, names, f)), pos, "pre", cl.labels)
            for cl in self.active(c.clauses, "cases"):
                self.oblige(st, "precondition of %s: %s is one of the known values" % (name, cl.name), self.case_formula(cl, names, f), pos, "pre", cl.labels)
            for cl in self.active(c.clauses, "cells"):
                self.check_cells(cl, names, st, pos)
        mods = self.modifies(c, f)
        ms = self.modsets.of(name) | self.modsets.of_values(args)
        if "#unsupported" in ms:
            raise Unsupported("callee %s writes memory the generator does not model" % name)
        alloc = "#alloc" in ms
        if alloc:
            A = fresh("A", z3.IntSort())
            if st.wr is None:
                st.pc.append(A >= st.A)
            st.A = A
        if self.is_havoc(c):
            mods = {h for h in ms if not h.startswith("#")} | self.ghosts_of(name) | \
                (set(self.specs.ghostvars) if self.takes_funcs(args) else set()) | \
                {"*" + n for n, a in names.items() if isinstance(a, AddrV)}
        mheaps = {m for m in mods if "." in m or "<" in m}
        for h in sorted(ms | mheaps | self.modifies(c, f, new=True)):
            if h.startswith("#") or h.startswith("*"):
                continue
            if h not in self.base:
                self.ensure_heap(h)
            old = self.heap(st, h)
            n = fresh("H_" + h, self.base[h][1])
            self.set_heap(st, h, n)
            if st.wr is None:
                ft = self.heap_typing(h, n, st.A)
                if ft is not None:
                    st.pc.append(ft)
                if h not in mods:
                    x = z3.Int("fx")
                    st.pc.append(z3.ForAll([x], z3.Implies(z3.And(0 < x, x < pre.A), n[x] == old[x]), patterns=[n[x]]))
        for m in mods:
            if m.startswith("*"):
                a = names.get(m[1:])
                if isinstance(a, AddrV) and a.kind == "cell":
                    cur = self.load(st, a)
                    self.store(st, a, self.havoc(cur.ty, "out_" + m[1:], st))
                elif isinstance(a, AddrV):
                    self.store(st, a, self.havoc(a.ty, "out", st))
                else:
                    raise Unsupported("modifies " + m)
            elif m in self.specs.ghostvars:
                t = self.rtype(self.specs.ghostvars[m])
                st.ghosts[m] = fresh("G_" + m, self.rsort(t))
                if st.wr is not None:
                    st.wr.add(("ghost", m))
        if any(isinstance(a, ClosureV) or (isinstance(a, SliceV) and a.ty.u().elem.u().kind == "func") or
               (isinstance(a, Z) and a.ty.u().kind == "func") for a in args):
            self.escape_effects(args, st, pos)
        rts = self.p.ty(f["sig"]).results.elems or []
        results = [self.havoc(t, "ret", st) for t in rts]
        if st.wr is None:
            rn = self.bind_names(c, f, args, results)
            rn.update({k: v for k, v in names.items() if k not in rn})
            ctx = Ctx(st, pre, rn, f)
            for cl in self.active(c.clauses, "ensures"):
                st.pc.append(self.evb(cl.expr, ctx))
        return [(st, results)]

    def ensure_heap(self, h):
        m = h.split(".")
        for t in list(self.p.types.values()):
            if t.kind == "named" and self.is_object(t) and self.objname(t) == m[0]:
                if (m[0], m[1]) in self.specs.ghostfields:
                    self.ghost_heap(m[0], m[1], self.rtype(self.specs.ghostfields[(m[0], m[1])]))
                    return
                for fn_, ft in t.u().fields:
                    if fn_ == m[1]:
                        self.field_heap(m[0], fn_, ft)
                        return
        if h.startswith("E<"):
            self.elem_heap(self.rtype(h[2:-1]))
            if h in self.base:
                return
        raise SpecError("unknown heap " + h)

    def check_cells(self, cl, names, st, pos):
        seen = []
        for n in [x.strip() for x in cl.text.split(",")]:
            a = names[n]
            if not (isinstance(a, AddrV) and a.kind == "cell"):
                raise Unsupported("argument %s is not the address of a variable" % n)
            if any(b.a == a.a for b in seen):
                self.oblige(st, "distinct variables are passed by address", z3.BoolVal(False), pos, "pre")
            seen.append(a)

    def escape_effects(self, args, st, pos):
        """A callee that got function values may call them: what they capture may change,
        and each must meet the contract of its function type."""
        cls = [a for a in args if isinstance(a, ClosureV)] + list(self.closures)
        for cl in cls:
            f = self.p.funcs[cl.fn]
            self.closures_escaped.setdefault(cl.fn, (cl, st.copy() if st.wr is None else None))
            if st.wr is None and self.closures_escaped[cl.fn][1] is None:
                self.closures_escaped[cl.fn] = (cl, st.copy())
            for b, p in zip(cl.binds, f["free"]):
                if isinstance(b, AddrV) and b.kind == "cell" and self.may_store_free(f, p["n"]):
                    if b.a in st.cells:
                        cur = st.cells[b.a]
                        if isinstance(cur, (Z, SliceV)):
                            st.cells[b.a] = self.havoc(st.ctypes[b.a], "cap", st)
                            if st.wr is not None:
                                st.wr.add(("cell", b.a))
                        else:
                            raise Unsupported("captured variable")

    def may_store_free(self, f, name):
        for b in f["blocks"]:
            for i in b["instrs"]:
                if i["op"] == "Store" and i["addr"]["k"] == "free" and i["addr"]["n"] == name:
                    return True
                if i["op"] not in ("UnOp",):
                    for v in [x for x in walkvals(i) if x["k"] == "free" and x["n"] == name]:
                        if not (i["op"] == "Store" and i["addr"] is v):
                            if i["op"] in ("MakeClosure", "Call", "FieldAddr"):
                                return True
        return False

    def call_unknown(self, f, args, st, pos, rt, sig):
        key = sig.s
        c = self.specs.functypes.get(key)
        if c is None or (c.labels and self.prop is not None and self.prop not in c.labels):
            raise Unsupported("call of an unknown function of type " + key)
        self.safety(st, f.t != 0, "call of a nil function", pos)
        pseudo = {"name": "functype:" + key, "params": [{"n": n} for n in c.params], "sig": sig.id, "free": [], "blocks": [], "targs": []}
        # effects: what any function literal of this type may write, or what the contract says
        self.modsets.full.setdefault(pseudo["name"], set().union(*[self.modsets.of(x) for x in self.modsets.bysig.get(key, [])]) if not any(True for _ in self.active(c.clauses, "option")) else set())
        names = {}
        pre = st.copy()
        r = self.apply_contract(c, pseudo["name"], pseudo, args, st, pos)
        self.escape_effects([], st, pos)
        for cl in self.active(c.clauses, "ghost"):
            for s, results in r:
                nm = self.bind_names(c, pseudo, args, results)
                nm["self"] = f
                self.ghost_assign(cl, s, pre, nm, pseudo)
        return r

    def named(self, v, st):
        """a constant for a conditional term, so that it may stand in a trigger"""
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and v.sort().kind() != z3.Z3_REAL_SORT:
            n = fresh("g_val", v.sort())
            st.pc.append(n == v)
            return n
        return v

    def ghost_assign(self, cl, st, pre, names, fn):
        l = cl.lhs
        if getattr(cl, "metas", None):
            (vn, vt), = cl.metas
            ty = self.rtype(vt, fn)
            x = fresh("gx", z3.IntSort())
            v = self.evt(cl.expr, Ctx(st, pre, {**names, vn: Z(x, ty)}, fn))
            sname = self.objname(ty.u().elem)
            h = self.ghost_heap(sname, l[2], self.rtype(self.specs.ghostfields[(sname, l[2])]))
            n = fresh("H_" + h, self.base[h][1])
            self.set_heap(st, h, n)
            if st.wr is None:
                st.pc.append(z3.ForAll([x], z3.Implies(x != 0, n[x] == v), patterns=[n[x]]))
            return
        ctx = Ctx(st, pre, names, fn)
        v = self.evt(cl.expr, ctx)
        v = self.named(v, st)
        if l[0] == "id":
            st.ghosts[l[1]] = v
            if st.wr is not None:
                st.wr.add(("ghost", l[1]))
        elif l[0] == "field":
            x = self.ev(l[1], ctx)
            sname = self.objname(x.ty.u().elem)
            gt = self.rtype(self.specs.ghostfields[(sname, l[2])])
            h = self.ghost_heap(sname, l[2], gt)
            self.set_heap(st, h, z3.Store(self.heap(st, h), self.named(x.t, st), v))
        elif l[0] == "index" and l[1][0] == "id":
            g = l[1][1]
            k = self.named(self.evt(l[2], ctx), st)
            st.ghosts[g] = z3.Store(self.ghost(st, g).t, k, v)
            if st.wr is not None:
                st.wr.add(("ghost", g))
        else:
            raise SpecError("ghost assignment")

    # ---------------------------------------------------------------- builtins and externals
    def builtin(self, n, args, st, pos, rt, c):
        if n == "len":
            x = args[0]
            if isinstance(x, SliceV):
                return [(st, [Z(x.len, INT)])]
            if isinstance(x, Z) and x.t.sort() == Str:
                l = lit_of(x.t)
                return [(st, [Z(I(len(l)) if l is not None else slen(x.t), INT)])]
            if isinstance(x, MapConst):
                return [(st, [Z(I(len(x.items)), INT)])]
            if isinstance(x, Z) and x.ty.u().kind == "map":
                v = fresh("maplen", z3.IntSort())
                st.pc.append(v >= 0)
                return [(st, [Z(v, INT)])]
        if n == "cap" and isinstance(args[0], SliceV):
            return [(st, [Z(args[0].cap, INT)])]
        if n == "append":
            return [(st, [self.append(args[0], args[1], st)])]
        if n == "copy":
            d, s = args
            return [(st, [self.copy_builtin(d, s, st)])]
        if n in ("println", "print"):
            return [(st, [])]
        if n in ("min", "max") and len(args) == 2:
            a, b = args[0].t, args[1].t
            return [(st, [Z(z3.If((a < b) if n == "min" else (a > b), a, b), args[0].ty)])]
        if n == "ssa:wrapnilchk":
            self.safety(st, args[0].t != 0, "nil receiver", pos)
            return [(st, [args[0]])]
        raise Unsupported("builtin " + n)

    def append(self, s, e, st):
        if isinstance(e, Z) and e.t.sort() == Str:
            raise Unsupported("append of a string")
        et = s.ty.u().elem
        h = self.elem_heap(et)
        if et.u().kind == "struct":
            raise Unsupported("append of structs")
        n = z3.simplify(e.len)
        if z3.is_int_value(n) and n.as_long() == 0:
            return s
        H = self.heap(st, h)
        newlen = z3.simplify(s.len + n)
        r = self.new_ref(st, s.ty)
        fits = newlen <= s.cap
        arr = z3.simplify(z3.If(fits, s.arr, r))
        cap = fresh("cap", z3.IntSort())
        st.pc.append(cap >= newlen)
        st.pc.append(z3.Implies(fits, cap == s.cap))
        if z3.is_int_value(n) and n.as_long() <= 4:
            content = H[s.arr]
            src = z3.simplify(H[e.arr])
            for j in range(n.as_long()):
                content = z3.Store(content, ix(s.off, s.len + j), z3.simplify(src[ix(e.off, I(j))]))
        else:
            content = fresh("content", H.sort().range())
            j = z3.Int("j")
            base = pos(s.off) + s.len
            st.pc.append(z3.ForAll([j], z3.Implies(z3.Or(j < base, j >= base + n), content[j] == H[s.arr][j]), patterns=[content[j]]))
            st.pc.append(z3.ForAll([j], z3.Implies(z3.And(s.len <= j, j < s.len + n), content[idx(s.off, j)] == H[e.arr][idx(e.off, j - s.len)]),
                                   patterns=[content[idx(s.off, j)]]))
            st.pc.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), content[idx(s.off, s.len + j)] == H[e.arr][idx(e.off, j)]),
                                   patterns=[H[e.arr][idx(e.off, j)]]))
        an = fresh("arr", z3.IntSort())
        st.pc.append(an == arr)
        # a slice keeps its offset when it moves: the bytes before it are out of its reach
        H2 = z3.Store(H, an, content)
        hn = fresh("H_" + h, H.sort())
        st.pc.append(hn == H2)
        self.set_heap(st, h, hn)
        self.name_alloc(st)
        return SliceV(an, s.off, newlen, cap, s.ty)

    def copy_builtin(self, d, s, st):
        et = d.ty.u().elem
        h = self.elem_heap(et)
        H = self.heap(st, h)
        n = z3.If(d.len < s.len, d.len, s.len)
        content = fresh("content", H.sort().range())
        j = z3.Int("j")
        st.pc.append(z3.ForAll([j], z3.Implies(z3.Or(j < pos(d.off), j >= pos(d.off) + n), content[j] == H[d.arr][j]), patterns=[content[j]]))
        st.pc.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), content[idx(d.off, j)] == H[s.arr][idx(s.off, j)]),
                               patterns=[content[idx(d.off, j)]]))
        self.set_heap(st, h, z3.Store(H, d.arr, content))
        return Z(n, INT)

    def ext_invoke(self, it, m, recv, args, st, pos, rt):
        if m == "Error":
            self.externs_used.add("error.Error")
            return [(st, [self.havoc(STRING, "errtext", st)])]
        raise Unsupported("call of interface method %s.%s" % (it.s, m))

    def external(self, name, args, st, pos, rt):
        m = getattr(self, "ext_" + re.sub(r"\W+", "_", name).strip("_"), None)
        if m:
            self.externs_used.add(name)
            return m(args, st, pos, rt)
        c = self.specs.contracts.get(name)
        if c is None or c.kind != "extern":
            g = re.sub(r"\[.*\]", "", name)
            c = self.specs.contracts.get(g)
        if c is None or c.kind != "extern":
            raise Unsupported("call of %s, which has no contract" % name)
        self.externs_used.add(name)
        rts = [] if rt is None else (rt.elems if rt.kind == "tuple" else [rt])
        sig = Ty("func", "x", results=Ty("tuple", "t", elems=rts))
        pseudo = {"name": name, "params": [{"n": n} for n in c.params], "sig": -1, "free": [], "blocks": [], "targs": []}
        self.p.types[-1] = sig
        self.modsets.full.setdefault(name, {h for h in self.modifies(c) if "." in h or "<" in h} | ({"#alloc"} if any(cl.text.strip() == "alloc" for cl in c.get("option")) else set()))
        r = self.apply_contract(c, name, pseudo, args, st, pos)
        for cl in self.active(c.clauses, "ghost"):
            for s, results in r:
                self.ghost_assign(cl, s, s, self.bind_names(c, pseudo, args, results), pseudo)
        return r

    # strings.Builder / bytes.Buffer: a variable that holds the text written so far
    def _buf(self, a, st, pos):
        a = self.addr_ok(a, st, pos)
        return a, self.load(st, a)

    def ext_strings_Builder_WriteString(self, args, st, pos, rt):
        a, cur = self._buf(args[0], st, pos)
        l1, l2 = lit_of(cur.t), lit_of(args[1].t)
        if l1 == b"":
            new = args[1].t
        else:
            new = scat(cur.t, args[1].t)
        self.store(st, a, Z(new, cur.ty))
        e = Z(I(0), Ty("interface", "error", methods=["Error"]))
        return [(st, [Z(slen(args[1].t), INT), e])]

    def ext_strings_Builder_WriteByte(self, args, st, pos, rt):
        a, cur = self._buf(args[0], st, pos)
        b = fresh("bs", Str)
        st.pc.append(z3.And(slen(b) == 1, sat(b, 0) == args[1].t))
        self.store(st, a, Z(scat(cur.t, b) if lit_of(cur.t) != b"" else b, cur.ty))
        return [(st, [Z(I(0), Ty("interface", "error", methods=["Error"]))])]

    def ext_strings_Builder_String(self, args, st, pos, rt):
        a, cur = self._buf(args[0], st, pos)
        return [(st, [Z(cur.t, STRING)])]

    def ext_strings_Builder_Len(self, args, st, pos, rt):
        a, cur = self._buf(args[0], st, pos)
        return [(st, [Z(slen(cur.t), INT)])]

    def ext_strings_Builder_Reset(self, args, st, pos, rt):
        a, cur = self._buf(args[0], st, pos)
        self.store(st, a, Z(lit(b""), cur.ty))
        return [(st, [])]

    def ext_strings_Builder_Grow(self, args, st, pos, rt):
        self.safety(st, args[1].t >= 0, "strings.Builder.Grow: negative count", pos)
        return [(st, [])]

    ext_bytes_Buffer_WriteString = ext_strings_Builder_WriteString
    ext_bytes_Buffer_WriteByte = ext_strings_Builder_WriteByte
    ext_bytes_Buffer_String = ext_strings_Builder_String
    ext_bytes_Buffer_Len = ext_strings_Builder_Len
    ext_bytes_Buffer_Reset = ext_strings_Builder_Reset

    def ext_bytes_Buffer_Bytes(self, args, st, pos, rt):
        a, cur = self._buf(args[0], st, pos)
        t = self.p.by_str["[]byte"]
        v = self.havoc(t, "bufbytes", st)
        h = self.elem_heap(t.elem)
        st.pc.append(v.arr > 0)
        st.pc.append(sbytes(self.heap(st, h)[v.arr], v.off, v.len) == cur.t)
        st.pc.append(v.len == slen(cur.t))
        return [(st, [v])]


import re
