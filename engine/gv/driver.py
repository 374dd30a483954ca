import sys, os, json, time, glob, multiprocessing, multiprocessing.connection
from .base import *
from . import spec as S, ginit, verify

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
G = {}


def load(ssa, files=None):
    prog = Program(ssa)
    specs = S.Specs()
    for f in files or sorted(glob.glob(HERE + "/contracts/*.spec")):
        specs.load(f)
    gi = ginit.GInit(prog).run_all()
    return prog, specs, gi


def one(task):
    prog, specs, gi, prop, opts = G["x"]
    try:
        return task, verify.run_task(prog, specs, gi, prop, task, opts)
    except Exception as ex:   # a crash of the generator is a failed obligation
        import traceback
        rep = verify.Report(str(task))
        rep.obs.append({"name": "generator error: %r" % ex, "kind": "unsupported", "where": "", "ok": False, "ms": 0,
                        "backend": "-", "detail": traceback.format_exc()[-1500:]})
        return task, rep


def work(task, w):
    w.send(one(task)[1])
    w.close()


def failed(task, name, kind, detail):
    r = verify.Report("/".join(str(x) for x in task if x))
    r.obs.append({"name": name, "kind": kind, "where": "", "ok": False, "ms": 0, "backend": "-", "detail": detail})
    return r


def tasks_for(prog, specs, name, prop, functype=None):
    """the tasks that verify one contract"""
    if functype:
        return [("closure", name, functype)]
    from .verify import V
    v = G["probe"]
    c = v.contract_for(name)
    if c is not None and v.is_havoc(c):
        return []
    cs = [cl for cl in v.active(c.clauses, "cases")]
    if cs:
        only = os.environ.get("GV_CASE")           # a debugging aid: one case alone
        return [("fn", name, (cs[0].name, x)) for x in v.case_list(cs[0]) if only in (None, x)]
    return [("fn", name, None)]


def targets(prog, specs, prop):
    """functions that carry a clause labelled with the property"""
    out, missing = [], []
    for n, c in specs.contracts.items():
        if c.kind != "func":
            continue
        has = (c.labels and prop in c.labels) or any(cl.labels and prop in cl.labels and cl.kw in ("ensures", "safety") for cl in c.clauses)
        if not has:
            continue
        insts = [m for m, f in prog.funcs.items() if m == n or f.get("origin") == n]
        gen = [m for m in insts if m == n]
        if not insts or not prog.funcs[insts[0]]["blocks"]:
            missing.append(n)
        else:
            out += gen or insts
    return out, missing


def verify_property(prog, specs, gi, prop, opts, only=None, jobs=8, log=None, stop=None):
    ctx = multiprocessing.get_context("fork")
    opts = dict(opts, sem=ctx.Semaphore(jobs))
    G["x"] = (prog, specs, gi, prop, opts)
    G["probe"] = verify.V(prog, specs, prop, gi, opts)
    tg, missing = targets(prog, specs, prop)
    if only:
        tg = [t for t in tg if any(o in t for o in only)] or only
        missing = []
    reports, done, queue = [], set(), []

    def push(name, functype=None):
        for t in tasks_for(prog, specs, name, prop, functype):
            if t not in done:
                done.add(t)
                queue.append(t)
    for n in tg:
        push(n)
    for f in specs.facts:
        if f[1] is None or prop in f[1]:
            if not only:
                queue.append(("fact", f[0]))
    for n in missing:
        base = n.split(".")[-1]
        if base[:1].isupper():
            r = verify.Report(n)
            r.obs.append({"name": "function %s under contract exists" % n, "kind": "unsupported", "where": "", "ok": False,
                          "ms": 0, "backend": "-", "detail": "missing"})
            reports.append((("fn", n, None), r))
    running = {}                       # task -> (process, the end of a pipe its report comes through)
    while queue or running:
        if stop is not None and stop():
            for p, _ in running.values():
                p.terminate()
            for t in list(running) + queue:
                reports.append((t, failed(t, "verification of the function", "aborted", "not finished")))
            break
        while queue and len(running) < jobs:
            t = queue.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(t, w))
            p.start()
            w.close()
            running[t] = (p, r)
        ready = multiprocessing.connection.wait([r for _, r in running.values()], 0.5)
        for t, (p, r) in list(running.items()):
            if r not in ready:
                continue
            del running[t]
            try:
                rep = r.recv()
            except (EOFError, OSError):
                rep = failed(t, "verification of the function", "unsupported", "the process of this task died")
            r.close()
            p.join()
            reports.append((t, rep))
            if log:
                log(t, rep)
            if not only:
                for n in rep.used:
                    if n.startswith("functype:"):
                        continue
                    f = prog.funcs.get(n)
                    if f and f["blocks"]:
                        push(n)
                for n, sig in rep.closures:
                    ft = specs.functypes.get(sig)
                    if ft and G["probe"].ft_active(ft):
                        push(n, sig)
            for g in rep.groups:
                for l in specs.lemmas:
                    if l[1] == g:
                        lt = ("lemma", l[0])
                        if lt not in done:
                            done.add(lt)
                            queue.append(lt)
    return reports


def main():
    import argparse
    a = argparse.ArgumentParser()
    a.add_argument("-p", default=None)
    a.add_argument("-f", nargs="*")
    a.add_argument("--spec", nargs="*")
    a.add_argument("--ssa", default="/tmp/w/ssa.json")
    a.add_argument("-v", action="store_true")
    a.add_argument("-j", type=int, default=8)
    a.add_argument("--timeout", type=int, default=5000)
    a.add_argument("--fast", action="store_true")
    o = a.parse_args()
    t0 = time.time()
    prog, specs, gi = load(o.ssa, o.spec)

    def log(t, rep):
        bad = [x for x in rep.obs if not x["ok"]]
        print("%s: %d obligations, %d failed, %.1fs  used=%s ext=%s inl=%s" % (rep.fn, len(rep.obs), len(bad), rep.time, sorted(rep.used), sorted(rep.externs), sorted(rep.inlined)))
        for x in (rep.obs if o.v else bad):
            print("   ", "ok  " if x["ok"] else "FAIL", x["kind"], x["name"], x["where"], "%.0fms" % x["ms"], x["backend"], "" if x["ok"] else "\n        " + x["detail"])
        if o.v:
            for i in rep.invs:
                print("    inv", i)
        sys.stdout.flush()
    reps = verify_property(prog, specs, gi, o.p, {"timeout": o.timeout, "fast": o.fast}, only=o.f, jobs=o.j, log=log)
    n = sum(len(r.obs) for _, r in reps)
    b = sum(1 for _, r in reps for x in r.obs if not x["ok"])
    print("TOTAL %d obligations, %d failed, %.1fs" % (n, b, time.time() - t0))


if __name__ == "__main__":
    main()
