"""Concrete execution of the packages' init functions: the values the package
level variables have once the program is initialised."""
from .base import Program, Unsupported


class Obj:
    def __init__(self, ty, v):
        self.ty, self.v = ty, v


class Ptr:
    def __init__(self, kind, base, key=None):
        self.kind, self.base, self.key = kind, base, key

    def load(self):
        if self.kind == "obj":
            return self.base.v
        return self.base[self.key]

    def store(self, v):
        if self.kind == "obj":
            self.base.v = v
        else:
            self.base[self.key] = v


class Sl:
    def __init__(self, lst, off, ln):
        self.lst, self.off, self.ln = lst, off, ln


class Opaque:
    def __init__(self, what):
        self.what = what


class PanicExc(Exception):
    pass


class GInit:
    def __init__(self, prog: Program):
        self.p = prog
        self.globals = {}
        self.steps = 0

    def zero(self, t):
        u = t.u()
        k = u.kind
        if k == "basic":
            if u.name == "bool":
                return False
            if u.name == "string":
                return b""
            return 0
        if k == "array":
            return [self.zero(u.elem) for _ in range(u.len)]
        if k == "struct":
            return [self.zero(ft) for _, ft in u.fields]
        return None

    def run_all(self, skip=()):
        for pk in self.p.packages:
            if pk.startswith("exported") or pk == "assert":
                continue
            f = self.p.funcs.get(pk + ".init")
            if f:
                self.call(f, [], [])
        return self.globals

    def gptr(self, name, t):
        if name not in self.globals:
            self.globals[name] = Obj(t, self.zero(t))
        return Ptr("obj", self.globals[name])

    def val(self, v, env, args, free):
        k = v["k"]
        if k == "const":
            t = self.p.ty(v["t"])
            if v.get("nil"):
                return self.zero(t)
            if "s" in v:
                return bytes(v["s"])
            if "b" in v:
                return v["b"]
            if "i" in v:
                return int(v["i"])
            return Opaque("const")
        if k == "reg":
            return env[v["n"]]
        if k == "param":
            return args[v["n"]]
        if k == "free":
            return free[v["n"]]
        if k == "global":
            t = self.p.ty(v["t"])
            return self.gptr(v["n"], t.elem)
        if k in ("func", "builtin"):
            return v
        raise Unsupported("init value " + k)

    def copyv(self, v):
        return [self.copyv(x) for x in v] if isinstance(v, list) else v

    def call(self, f, args, free):
        ps = {p["n"]: a for p, a in zip(f["params"], args)}
        fr = {p["n"]: a for p, a in zip(f["free"], free)}
        env = {}
        b, prev = 0, None
        while True:
            blk = f["blocks"][b]
            phis = {}
            for i in blk["instrs"]:
                if i["op"] != "Phi":
                    break
                phis[i["reg"]] = self.val(i["edges"][blk["preds"].index(prev)], env, ps, fr)
            env.update(phis)
            for i in blk["instrs"]:
                self.steps += 1
                if self.steps > 2000000:
                    raise Unsupported("initialisation does not end")
                op = i["op"]
                V = lambda x: self.val(x, env, ps, fr)
                if op == "Phi":
                    continue
                if op == "If":
                    prev, b = b, blk["succs"][0 if V(i["x"]) else 1]
                    break
                if op == "Jump":
                    prev, b = b, blk["succs"][0]
                    break
                if op == "Return":
                    r = [V(x) for x in i["xs"]]
                    return r[0] if len(r) == 1 else r
                r = self.ins(i, op, V)
                if "reg" in i:
                    env[i["reg"]] = r

    def hk(self, k):
        return tuple(self.hk(x) for x in k) if isinstance(k, list) else (k.base if isinstance(k, Ptr) else k)

    def ins(self, i, op, V):
        p = self.p
        if op == "Alloc":
            t = p.ty(i["t"]).elem
            return Ptr("obj", Obj(t, self.zero(t)))
        if op == "Store":
            V(i["addr"]).store(self.copyv(V(i["val"])))
            return None
        if op == "UnOp":
            x = V(i["x"])
            if i["tok"] == "*":
                return self.copyv(x.load())
            if i["tok"] == "!":
                return not x
            if i["tok"] == "-":
                return -x
        if op == "BinOp":
            x, y = V(i["x"]), V(i["y"])
            t = i["tok"]
            if t in ("==", "!="):
                e = self.hk(x) == self.hk(y)
                return e if t == "==" else not e
            return {"+": lambda: x + y, "-": lambda: x - y, "<": lambda: x < y, "<=": lambda: x <= y,
                    ">": lambda: x > y, ">=": lambda: x >= y, "*": lambda: x * y}[t]()
        if op == "FieldAddr":
            x = V(i["x"])
            return Ptr("in", x.load(), i["field"])
        if op == "Field":
            return V(i["x"])[i["field"]]
        if op == "IndexAddr":
            x, k = V(i["x"]), V(i["i"])
            if isinstance(x, Sl):
                return Ptr("in", x.lst, x.off + k)
            return Ptr("in", x.load(), k)
        if op == "Index":
            return V(i["x"])[V(i["i"])]
        if op == "Slice":
            x = V(i["x"])
            lo = V(i["lo"]) if "lo" in i else 0
            if isinstance(x, bytes):
                return x[lo:V(i["hi"]) if "hi" in i else len(x)]
            if isinstance(x, Ptr):
                lst = x.load()
                hi = V(i["hi"]) if "hi" in i else len(lst)
                return Sl(lst, lo, hi - lo)
            if x is None:
                return None
            hi = V(i["hi"]) if "hi" in i else x.ln
            return Sl(x.lst, x.off + lo, hi - lo)
        if op == "MakeSlice":
            n = V(i["len"])
            e = p.ty(i["t"]).u().elem
            return Sl([self.zero(e) for _ in range(n)], 0, n)
        if op == "MakeMap":
            return {}
        if op == "MapUpdate":
            V(i["m"])[self.hk(V(i["key"]))] = (V(i["key"]), V(i["val"]))
            return None
        if op == "Lookup":
            m = V(i["x"])
            k = V(i["i"])
            if isinstance(m, bytes):
                return m[k]
            hit = m.get(self.hk(k)) if m is not None else None
            z = hit[1] if hit else self.zero(p.ty(i["x"]["t"]).u().elem)
            return [z, hit is not None] if i["commaok"] else z
        if op == "Extract":
            return V(i["x"])[i["i"]]
        if op in ("ChangeType", "ChangeInterface", "MakeInterface"):
            return V(i["x"])
        if op == "Convert":
            x = V(i["x"])
            t = p.ty(i["t"]).u()
            if isinstance(x, bytes) and t.kind == "slice":
                l = list(x)
                return Sl(l, 0, len(l))
            if isinstance(x, Sl) and t.kind == "basic":
                return bytes(x.lst[x.off:x.off + x.ln])
            if isinstance(x, int) and t.kind == "basic" and t.name == "string":
                return chr(x).encode()
            return x
        if op == "Range":
            x = V(i["x"])
            if isinstance(x, bytes):
                its = []
                pos = 0
                for ch in x.decode("utf-8", "replace"):
                    its.append((pos, ord(ch)))
                    pos += len(ch.encode())
                return iter(its)
            return iter([(v[0], v[1]) for v in list((x or {}).values())])
        if op == "Next":
            try:
                k, v = next(V(i["x"]))
                return [True, k, v]
            except StopIteration:
                return [False, None, None]
        if op == "MakeClosure":
            return ("closure", V(i["fn"]), [V(b) for b in i["bind"]])
        if op == "Call":
            c = i["call"]
            if "invoke" in c:
                raise Unsupported("interface call in init")
            fn = V(c["fn"])
            args = [V(a) for a in c["args"]]
            if isinstance(fn, tuple):
                return self.call(self.p.funcs[fn[1]["n"]], args, fn[2])
            if fn["k"] == "builtin":
                n = fn["n"]
                if n == "len":
                    x = args[0]
                    return 0 if x is None else x.ln if isinstance(x, Sl) else len(x)
                if n == "append":
                    a, b = args
                    l = ([] if a is None else a.lst[a.off:a.off + a.ln]) + \
                        ([] if b is None else (list(b) if isinstance(b, bytes) else b.lst[b.off:b.off + b.ln]))
                    return Sl(l, 0, len(l))
                raise Unsupported("builtin %s in init" % n)
            n = fn["n"]
            if n in self.p.funcs:
                f = self.p.funcs[n]
                if n.endswith(".init"):
                    return None
                return self.call(f, args, [])
            if n.endswith(".init"):
                return None
            return Opaque(n)
        raise Unsupported("init instruction " + op)
