"""Discharging conditions: goal preparation, z3, cvc5."""
import ctypes, os, pickle, select, signal, subprocess, sys, tempfile, time
import z3
from .base import *
from .sym import I, has_quant, T_and

TRACE = os.environ.get("GV_TRACE")
OFF = os.environ.get("GV_OFF", "").split(",")
KEEP = os.environ.get("GV_KEEP")


def flatten(pc, goal, skolems=None, depth=0):
    """splits a goal into (extra assumptions, atomic goal) pairs"""
    if z3.is_true(goal):
        return []
    if z3.is_and(goal):
        out, acc = [], list(pc)
        for c in goal.children():
            out += flatten(acc, c)
            acc = acc + [c]
        return out
    if z3.is_implies(goal):
        return flatten(pc + split_hyp(goal.arg(0)), goal.arg(1))
    if z3.is_not(goal) and z3.is_or(goal.arg(0)):
        return flatten(pc, z3.And([z3.Not(x) for x in goal.arg(0).children()]))
    if z3.is_not(goal) and z3.is_not(goal.arg(0)):
        return flatten(pc, goal.arg(0).arg(0))
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = [fresh("sk_" + goal.var_name(i), goal.var_sort(i)) for i in range(goal.num_vars())]
        body = z3.substitute_vars(goal.body(), *reversed(vs))
        # the goal's own triggers are terms of the query, also for its parts that do not mention them
        pats = []
        for i in range(goal.num_patterns()):
            for t in goal.pattern(i).children():
                t = z3.substitute_vars(t, *reversed(vs))
                pats.append(z3.Function("term!%s" % t.sort(), t.sort(), z3.BoolSort())(t))
        return flatten(pc + pats, body)
    if z3.is_eq(goal) and goal.arg(0).sort() == z3.BoolSort():
        a, b = goal.children()
        return flatten(pc + [a], b) + flatten(pc + [b], a)
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = goal.children()
        return flatten(pc + [c], a) + flatten(pc + [z3.Not(c)], b)
    return [(pc, goal)]


def split_hyp(h):
    """hypothesis: conjunctions split, existentials skolemised"""
    if z3.is_and(h):
        out = []
        for c in h.children():
            out += split_hyp(c)
        return out
    if z3.is_quantifier(h) and h.is_exists():
        vs = [fresh("ex_" + h.var_name(i), h.var_sort(i)) for i in range(h.num_vars())]
        return split_hyp(z3.substitute_vars(h.body(), *reversed(vs)))
    return [h]


def str_exts(goal):
    """extensionality instances for the string equalities in a goal"""
    out, seen, st = [], set(), [goal]
    while st:
        t = st.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if z3.is_eq(t) and t.arg(0).sort() == Str:
            a, b = t.children()
            d = fresh("diff", z3.IntSort())
            out.append(z3.Or(a == b, slen(a) != slen(b), z3.And(0 <= d, d < slen(a), sat(a, d) != sat(b, d))))
        st.extend(t.children())
    return out


def merges(pc):
    """the joins of two paths that stand unguarded in a path condition: [(guard, guard)]"""
    out = []
    for f in pc:
        if z3.is_or(f) and f.num_args() == 2 and all(z3.is_const(a) and a.decl().name().startswith("path!") for a in f.children()):
            out.append((f.arg(0), f.arg(1)))
    return out


def stem(n):
    return n.split("!")[0]


def heapish(n):
    return n.startswith(("H_", "G_"))


def conj(f):
    if z3.is_and(f):
        for x in f.children():
            yield from conj(x)
    else:
        yield f


def has_quantifier(f):
    todo, seen = [f], set()
    while todo:
        t = todo.pop()
        if z3.is_quantifier(t):
            return True
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        todo += t.children()
    return False


def take(pc, g, h):
    """the path condition on the branch where g holds and h does not"""
    gi, hi = g.get_id(), h.get_id()
    names = {g.decl().name(), h.decl().name()}
    sub = [(g, z3.BoolVal(True)), (h, z3.BoolVal(False))]
    out = []
    for f in pc:
        if z3.is_implies(f) and z3.is_const(f.arg(0)):
            if f.arg(0).get_id() == hi:
                continue
            if f.arg(0).get_id() == gi:
                f = f.arg(1)
        if names & consts_in([f]):
            f = z3.simplify(z3.substitute(f, *sub))
        if z3.is_true(f):
            continue
        if z3.is_and(f):
            out += f.children()
        else:
            out.append(f)
    return out


def pmap(fn, items, sem, k=6):
    """fn of each item, in forked processes when there is more than one item"""
    if len(items) <= 1 or sem is None:
        return [fn(x) for x in items]
    out, todo, kids = {}, list(range(len(items))), {}
    while todo or kids:
        while todo and len(kids) < k:
            i = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # it ends with its parent
                    os.close(r)
                    with sem:
                        data = pickle.dumps(fn(items[i]))
                    sys.stdout.flush()
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            kids[r] = (i, pid, [])
        for r in select.select(list(kids), [], [])[0]:
            b = os.read(r, 1 << 16)
            if b:
                kids[r][2].append(b)
                continue
            i, pid, bs = kids.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            out[i] = pickle.loads(b"".join(bs)) if bs else None
    return [out[i] for i in range(len(items))]


class Discharger:
    def __init__(self, v, ax, opts):
        self.v, self.ax, self.opts = v, ax, opts
        self.sem = opts.get("sem")
        self.results, self.invs = [], []
        self.on = {}
        self.timeout = opts.get("timeout", 10000)
        self.htimeout = opts.get("htimeout", 2500)
        self.strax = string_axioms()
        self.nfailed = 0

    def facts(self, fs):
        """background for a query over the formulas fs"""
        names = consts_in(list(fs))
        lq = [f for (ids, f) in self.liteq() if ids & names]
        heaps = [f for n, f in self.v.base_facts if n in names]
        more = consts_in(self.ax + lq + heaps)
        lits = {n for n in names | more if n.startswith("lit_")}
        return heaps + self.strax + self.ax + lq + lit_axioms(lits)

    def liteq(self):
        if not hasattr(self, "_lq") or len(self._lq) != len(self.v.liteq_facts):
            self._lq = []
            for f in self.v.liteq_facts:
                self._lq.append(({n for n in consts_in([f]) if not n.startswith("lit_")}, f))
        return self._lq

    def solver(self, timeout, seed=0, alt=0):
        s = z3.Solver()
        # the resource limit decides, the same on every machine; the time limit is a backstop
        s.set("rlimit", timeout * 20000)
        s.set("timeout", timeout * 12)
        s.set("smt.mbqi", False)
        s.set("smt.auto_config", False)
        if seed:
            s.set("smt.random_seed", seed)
        if alt == 1:
            s.set("smt.arith.solver", 2)
        if alt == 2:
            s.set("smt.case_split", 3)
        if alt == 4:
            s.set("smt.relevancy", 0)       # instances also where the search sees no need for them
        return s

    def guards(self):
        return [g if on else z3.Not(g) for g, on in self.on.items()]

    def gmap(self):
        self.onid = {g.get_id(): on for g, on in self.on.items()}
        return [(g, z3.BoolVal(on)) for g, on in self.on.items()]

    def prep(self, fs, gm):
        out = []
        for f in fs:
            if gm and uses_guard(f):
                if z3.is_implies(f) and f.arg(0).get_id() in self.onid:
                    if self.onid[f.arg(0).get_id()]:
                        out.append(f.arg(1))
                    continue
                f = z3.substitute(f, *gm)
            if not z3.is_true(f):
                out.append(f)
        return out

    def query(self, fs, timeout, seed=0, alt=0):
        fs = self.facts(fs) + fs
        for core in (True, False):
            s = self.solver(timeout, seed, alt)
            if core:
                s.push()        # the core alone: preprocessing may drop the terms that are there to be matched
            for f in fs:
                s.add(f)
            if s.check() == z3.unsat:
                return True
            if alt:
                break
        return False

    def narrow(self, pc, goal, timeout):
        """proves a goal from the facts without quantifiers and those about the goal's own heaps"""
        sk = {n for n in consts_in([goal]) if n.startswith("sk_")}
        if not sk:
            return False
        near = [goal] + [f for f in pc if sk & consts_in([f])]
        own = {stem(n) for n in consts_in(near)}
        fs = []
        for f in pc:
            for g in conj(f):
                if has_quantifier(g) and {n for n in map(stem, consts_in([g])) if heapish(n)} - own:
                    continue
                fs.append(g)
        r = self.query(fs + str_exts(goal) + [z3.Not(goal)], timeout, 0, 4)
        if not r and os.environ.get("GV_NARROW"):
            self.dump("%s.%d.%d" % (os.environ["GV_NARROW"], os.getpid(), self.count()), fs + [z3.Not(goal)])
        return r

    # ------------------------------------------------------------ Houdini
    def houdini(self):
        v = self.v
        for L in v.loops:
            for g, text, ent, f in L.cands:
                self.on[g] = str(g) not in OFF
        # entry conditions and preservation, to a fixpoint
        jobs = []
        for L in v.loops:
            jobs.append((L.pc0, [(c[0], c[2]) for c in L.cands]))
            for pc, forms in L.backs:
                jobs.append((pc, [(c[0], fm) for c, fm in zip(L.cands, forms)]))
        dirty = set(range(len(jobs)))
        deps = []
        for pc, forms in jobs:
            deps.append(guards_in(pc))
        passed = {}
        while dirty:
            if time.time() > self.opts.get("deadline", 1e18):
                for g in self.on:
                    self.on[g] = False
                break
            gm = self.gmap()
            batch = []
            for j in sorted(dirty):
                pc, forms = jobs[j]
                todo = [(g, f) for g, f in forms if self.on[g]]
                if todo:
                    p = self.prep(pc, gm)
                    n = max(1, min(8 // max(1, len(dirty)), len(todo) // 4))
                    for m in range(n):
                        batch.append((j, p, todo[m::n]))
            dirty = set()

            def work(x):
                bad = self.failing(x[1], x[2])
                return [str(g) for g in bad]
            for (j, _, todo), bad in zip(batch, pmap(work, batch, self.sem)):
                for g, _ in todo:
                    if (bad is None or str(g) in bad) and self.on[g]:
                        if KEEP:                     # a debugging aid: one pass, all candidates stay
                            print("  LOST", g, [c[1][:150] for L in v.loops for c in L.cands if c[0].eq(g)])
                            continue
                        self.on[g] = False
                        if TRACE:
                            print("  drop", g, [c[1] for L in v.loops for c in L.cands if c[0].eq(g)])
                        for k in range(len(jobs)):
                            if str(g) in deps[k]:
                                dirty.add(k)
        for L in v.loops:
            for g, text, ent, f in L.cands:
                if self.on[g]:
                    self.invs.append("%s: %s" % (L.key, text))

    def failing(self, pc, forms):
        """the candidates that do not follow from pc"""
        bad = []
        s = self.solver(self.htimeout // 3)
        for f in self.facts(pc + [f for _, f in forms]):
            s.add(f)
        for f in pc:
            s.add(f)
        s.push()
        auto = {c[0].get_id() for L in self.v.loops for c in L.cands if " unchanged since " in c[1] or c[1].endswith((">= -1", ">= 0", " is new"))}
        still = set().union(*[L.still for L in self.v.loops])
        for g, f in forms:
            parts = flatten([], f)
            ok = True
            t0 = time.time()
            for extra, goal in parts:
                s.push()
                for e in extra:
                    s.add(e)
                for e in str_exts(goal):
                    s.add(e)
                s.add(z3.Not(goal))
                r = s.check()
                s.pop()
                if r != z3.unsat:
                    # once more with a solver of its own
                    ok = False
                    # what a loop leaves alone is known behind it without an invariant
                    if r == z3.unknown and g.get_id() not in still:
                        ok = self.bypaths(pc + extra, goal, self.htimeout, cheap=g.get_id() in auto)
                    if not ok:
                        if TRACE:
                            print("   not shown: %s" % str(goal)[:1500], r)
                            if os.environ.get("GV_HYP"):
                                for e in extra:
                                    print("      extra", str(e)[:800])
                        break
            if TRACE and time.time() - t0 > 0.5:
                print("   slow %s %.1fs" % (g, time.time() - t0))
            if not ok:
                bad.append(g)
        return bad

    def bypaths(self, pc, goal, timeout, depth=0, budget=None, cheap=False):
        """proves a goal whole, or else on each of the paths that were joined"""
        budget = budget if budget is not None else [self.opts.get("paths", 200)]
        fs = pc + str_exts(goal) + [z3.Not(goal)]
        ms = merges(pc)
        if depth == 0 and self.narrow(pc, goal, timeout // 8 + 1):
            return True
        if not ms:
            r = self.query(fs, timeout // 2) or (not cheap and self.query(fs, timeout // 4, 0, 4))
            if not r and not cheap and self.oldz3(fs, timeout):
                self.old = True
                r = True
            if not r and os.environ.get("GV_LEAF"):
                self.dump("%s.%d" % (os.environ["GV_LEAF"], self.count()), fs)
                print("LEAF", goal)
            return r
        if depth and self.query(fs, timeout // 6 + 1):
            return True
        g, h = ms[-1]
        for a, b in ((g, h), (h, g)):
            budget[0] -= 1
            if budget[0] < 0 or time.time() > self.opts.get("deadline", 1e18):
                return False
            if not self.bypaths(take(pc, a, b), goal, timeout, depth + 1, budget, cheap):
                return False
        return True

    # ------------------------------------------------------------ obligations
    def discharge(self):
        v = self.v
        gm = self.gmap()
        def work(ob):
            nf = self.nfailed
            r = self.one(ob, gm)
            return r, self.nfailed > nf
        hard = [ob for ob in v.obs if not z3.is_true(ob.goal)]
        parts = [hard[i:i + 1] for i in range(len(hard))] if len(hard) < 12 else [hard[i::12] for i in range(12)]
        got = {}
        for obs, rs in zip(parts, pmap(lambda obs: [work(o) for o in obs], parts, self.sem)):
            for i, ob in enumerate(obs):
                got[id(ob)] = rs[i][0] if rs else self.res(ob, False, "-", 0, "the solver process ended")
        for ob in v.obs:
            self.results.append(got[id(ob)] if id(ob) in got else self.res(ob, True, "simplifier", 0, ""))

    def one(self, ob, gm):
        t0 = time.time()
        pc = self.prep(ob.pc, gm)
        ok, be, detail = True, "z3", ""
        if time.time() > self.opts.get("deadline", 1e18):
            return self.res(ob, False, "-", 0, "not attempted: the time of this check is used up")
        for extra, goal in flatten([], z3.substitute(ob.goal, *gm) if gm else ob.goal):
            r, b = self.prove(pc + extra, goal)
            if b != "z3":
                be = b
            if not r:
                ok = False
                self.nfailed += 1
                detail = str(goal)[:600]
                break
        if TRACE and not ok:
            print("FAILED", ob.name, ob.where, detail)
        return self.res(ob, ok, be, (time.time() - t0) * 1000, detail)

    def prove(self, pc, goal):
        fs = pc + str_exts(goal) + [z3.Not(goal)]
        ms = merges(pc)
        if self.narrow(pc, goal, self.timeout // 20) or self.query(fs, self.timeout // 4 if ms else self.timeout) or self.query(fs, self.timeout // 4, 0, 4):
            return True, "z3"
        self.old = False
        if ms and self.bypaths(pc, goal, self.timeout, 1):
            return True, "z3-4.8" if self.old else "z3"
        if self.opts.get("flag"):
            open(self.opts["flag"], "a").close()      # a first doubt: the search may start
        # after three failed obligations of a function the verdict stands: no more retries
        if self.opts.get("fast") or self.nfailed >= 3 or time.time() > self.opts.get("deadline", 1e18):
            return False, "z3"
        if self.oldz3(fs, self.timeout):
            return True, "z3-4.8"
        for seed, alt in ((7, 0), (3, 1), (11, 2)):
            if self.query(fs, self.timeout, seed, alt):
                return True, "z3"
        if os.environ.get("GV_DUMP"):
            self.dump("%s.%d" % (os.environ["GV_DUMP"], self.count()), fs)
        if self.cvc5(fs, self.opts.get("cvc5_timeout", 15)):
            return True, "cvc5"
        return False, "z3+cvc5"

    def count(self):
        self.nd = getattr(self, "nd", 0) + 1
        return self.nd

    def dump(self, path, fs):
        q = z3.Solver()
        for f in self.facts(fs) + fs:
            q.add(f)
        with open(path + ".smt2", "w") as o:
            o.write(q.to_smt2())
        with open(path + ".txt", "w") as o:
            for f in fs:
                o.write(str(f).replace("\n", " ") + "\n")

    def oldz3(self, fs, tmo):
        return self.external(fs, ["z3", "rlimit=%d" % (tmo * 2000), "-T:%d" % max(1, tmo * 12 // 1000), "smt.mbqi=false",
                                  "auto_config=false", "-smt2"], tmo * 12 // 1000)

    def cvc5(self, fs, tmo):
        return self.external(fs, ["cvc5", "--lang=smt2", "--tlimit=%d" % (tmo * 1000)], tmo)

    def external(self, fs, cmd, tmo):
        s = z3.Solver()
        for f in self.facts(fs):
            s.add(f)
        for f in fs:
            s.add(f)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        fd, p = tempfile.mkstemp(suffix=".smt2")
        try:
            os.write(fd, txt.encode())
            os.close(fd)
            r = subprocess.run(cmd + [p], capture_output=True, text=True, timeout=tmo + 10)
            return r.stdout.strip().startswith("unsat")
        except subprocess.TimeoutExpired:
            return False
        finally:
            os.unlink(p)

    def res(self, ob, ok, be, ms, detail):
        return {"name": ob.name, "kind": ob.kind, "where": ob.where, "ok": ok, "ms": round(ms, 1), "backend": be, "detail": detail}

    # ------------------------------------------------------------ reachability
    def reach(self):
        """the proof must not be vacuous: the assumptions at some return are consistent"""
        v = self.v
        gm = self.gmap()
        if not getattr(v, "retpcs", None):
            self.results.append({"name": "some return is reachable", "kind": "vacuity", "where": "", "ok": False, "ms": 0, "backend": "z3", "detail": "no return"})
            return
        t0 = time.time()
        ok = False
        for pc in v.retpcs:
            if not self.query(self.prep(pc, gm), 2000):
                ok = True
                break
        self.results.append({"name": "the assumptions are consistent at a return", "kind": "vacuity", "where": "", "ok": ok, "ms": round((time.time() - t0) * 1000, 1), "backend": "z3", "detail": ""})


def guards_in(pc):
    out = set()
    for n in consts_in(pc):
        if n.startswith("inv!"):
            out.add(n)
    return out


def uses_guard(f):
    return z3.is_implies(f) and z3.is_const(f.arg(0)) and f.arg(0).decl().name().startswith("inv!") or \
        any(n.startswith("inv!") for n in consts_in([f]))
