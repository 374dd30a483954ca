#!/usr/bin/env python3-vt
"""check.py ID [quick|thorough]: decides one property of /repo's working tree.

Exports /repo's current source as SSA, generates the proof obligations of every
function the property's contracts name or lead to, and has the solvers discharge
them.  Exit 0: all discharged.  Exit 1: some obligation failed; the replay file
names it, and, where the search below found one, a failing input for the real code."""
import sys, os, json, time, shutil, subprocess, tempfile, threading, signal

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, os.path.join(HERE, "engine"))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)


def goenv(scratch):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off", GO111MODULE="on")
    e.setdefault("HOME", "/root")
    e["GOPATH"] = "/root/go"
    e["GOMODCACHE"] = "/root/go/pkg/mod"
    if not os.access(e.get("GOCACHE", "/root/.cache/go-build"), os.W_OK):
        e["GOCACHE"] = os.path.join(scratch, "gocache")
    e["GOTMPDIR"] = scratch
    return e


def export(scratch, env):
    exe = os.path.join(scratch, "ssaexport")
    subprocess.run(["go", "build", "-o", exe, "."], cwd=os.path.join(HERE, "engine", "ssaexport"), env=env, check=True)
    out = os.path.join(scratch, "ssa.json")
    subprocess.run([exe, REPO, out], cwd=REPO, env=env, check=True)
    return out


class Falsifier:
    """searches a failing input for the real code, in a process of its own"""

    def __init__(self, prop, scratch, env, budget, seed):
        self.prop, self.scratch, self.env, self.budget, self.seed = prop, scratch, env, budget, seed
        self.src = os.path.join(HERE, "falsify", prop.lower() + "_test.go")
        self.found, self.output, self.done, self.cases = None, "", False, 0
        self.proc = None
        self.thread = None

    def start(self):
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()

    def run(self):
        try:
            self.run_()
        except Exception as ex:
            self.output += "falsifier error: %r" % ex
        self.done = True

    def run_(self):
        if not os.path.exists(self.src):
            self.output = "no search is built for this property"
            return
        common = os.path.join(HERE, "falsify", "common_test.go")
        rep = {REPO + "/zz_verif_common_test.go": common, REPO + "/zz_verif_prop_test.go": self.src}
        # the search stands alone: the repository's own test files are left out of its binary
        for f in os.listdir(REPO):
            if f.endswith("_test.go"):
                rep[os.path.join(REPO, f)] = ""
        ov = os.path.join(self.scratch, "overlay.json")
        json.dump({"Replace": rep}, open(ov, "w"))
        exe = os.path.join(self.scratch, "falsify.test")
        r = subprocess.run(["go", "test", "-overlay", ov, "-vet=off", "-c", "-o", exe, "."], cwd=REPO, env=self.env,
                           capture_output=True, text=True)
        if r.returncode != 0:
            self.output = "the search does not build against this tree:\n" + r.stdout + r.stderr
            return
        wd = os.path.join(self.scratch, "work")
        os.makedirs(wd, exist_ok=True)
        out, cur = os.path.join(self.scratch, "found.json"), os.path.join(self.scratch, "current.txt")
        env = dict(self.env, VERIF_SEED=str(self.seed), VERIF_BUDGET=str(self.budget), VERIF_OUT=out, VERIF_CUR=cur,
                   VERIF_REPO=REPO, GOMEMLIMIT="4GiB")
        log = open(os.path.join(self.scratch, "falsify.log"), "w+")
        self.proc = subprocess.Popen([exe, "-test.run", "^TestVerifSearch$", "-test.v", "-test.timeout", "0"], cwd=wd, env=env,
                                     stdout=log, stderr=subprocess.STDOUT)
        try:
            self.proc.wait(timeout=self.budget + 60)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()
        log.seek(0)
        txt = log.read()
        self.output = txt[:4000]
        for l in txt.splitlines():
            if "VERIF-CASES" in l:
                self.cases = int(l.split("VERIF-CASES")[1].split()[0])
        if os.path.exists(out):
            self.found = json.load(open(out))
        elif self.proc.returncode not in (0, -9) and ("goroutine stack exceeds" in txt or "fatal error: stack overflow" in txt
                                                      or "fatal error: concurrent map" in txt):
            self.found = {"input": open(cur).read() if os.path.exists(cur) else "", "what": "the process dies: " + txt.strip()[:300]}

    def stop(self):
        if self.proc and self.proc.poll() is None:
            self.proc.kill()
        if self.thread:
            self.thread.join(20)


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    for l in open(p):
        l = l.strip()
        if l.startswith("finding: property=%s " % prop):
            out.append(l[len("finding: property=%s " % prop):])
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    rc = 2
    try:
        rc = decide(prop, tier, seed, thorough, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(prop, tier, seed, thorough, scratch, t0):
    env = goenv(scratch)
    ssa = export(scratch, env)
    from gv import driver
    limit = 3000 if thorough else 600          # seconds for the proof
    search_total = 600 if thorough else 780    # no search runs past this point of a failing check
    fals = Falsifier(prop, scratch, env, 600 if thorough else 90, seed)
    state = {"bad": 0, "started": None}
    flag = os.path.join(scratch, "doubt")
    prog, specs, gi = driver.load(ssa)

    def log(t, rep):
        bad = [o for o in rep.obs if not o["ok"]]
        print("%-60s %4d obligations, %d failed, %.1fs" % (rep.fn, len(rep.obs), len(bad), rep.time))
        for o in bad:
            print("    FAILED  %s: %s  [%s] %s" % (o["kind"], o["name"], o["where"], o["detail"].strip().splitlines()[-1][:200] if o["detail"].strip() else ""))
        if bad and state["started"] is None:
            state["started"] = time.time()
            fals.start()
        sys.stdout.flush()

    def stop():
        # a failing input settles it; otherwise the proof may use its time
        if state["started"] is None and os.path.exists(flag):
            state["started"] = time.time()
            fals.start()
        return (fals.found is not None) or time.time() - t0 > limit + 60 or (fals.done and not thorough and time.time() - t0 > 270)
    opts = {"flag": flag, "timeout": 40000 if thorough else 7000, "htimeout": 10000 if thorough else 4000, "deadline": t0 + limit,
            "cvc5_timeout": 60 if thorough else 15, "second": thorough}
    reps = driver.verify_property(prog, specs, gi, prop, opts, jobs=8, log=log, stop=stop)
    obs = [dict(o, fn=r.fn) for _, r in reps for o in r.obs]
    failed = [o for o in obs if not o["ok"]]
    if not obs:
        failed = [{"fn": "-", "name": "obligations were generated", "kind": "vacuity", "where": "", "detail": "none", "ok": False, "ms": 0, "backend": "-"}]
    vac = [o for o in obs if o["kind"] == "vacuity"]
    kf = known_findings(prop)
    known = [o for o in failed if any(("%s: %s" % (o["fn"], o["name"])) == k.split(" -- ")[0] for k in kf)]
    failed = [o for o in failed if o not in known]
    for o in known:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, o["fn"], o["name"]))
    if failed and fals.thread is None:
        fals.start()
    if failed:
        while not fals.done and time.time() - t0 < search_total + 60:
            time.sleep(0.2)
        fals.stop()
    elif thorough:
        # not part of the verdict of the proof: the oracles of the search, run against the proved code
        fals.budget = 120
        fals.start()
        fals.thread.join(400)
    searched = fals.thread is not None
    by = {}
    for o in obs:
        if o["ok"]:
            by[o["backend"]] = by.get(o["backend"], 0) + 1
    used, ext, inl, notes = set(), set(), set(), set()
    fns = {}
    for t, r in reps:
        fns[r.fn] = len(r.obs)
        used |= r.used
        ext |= r.externs
        inl |= r.inlined
        notes |= set(r.notes)
    n_ok = sum(1 for o in obs if o["ok"])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": len(obs), "discharged": n_ok,
            "checker_cmd": "python3-vt check.py %s %s" % (prop, tier),
            "trusted_base": ["golang.org/x/tools/go/ssa: translation of /repo's source to SSA", "engine/gv: condition generator written for this task",
                             "z3 %s, cvc5 1.1.2" % z3version()] + ["assumed contract of " + e for e in sorted(ext)],
            "functions_under_contract": sorted(fns), "obligations_by_function": fns, "discharged_by_back_end": by,
            "solver_and_generator_cpu_s": round(sum(r.time for _, r in reps), 1),
            "functions_looked_through": sorted(inl),
            "reachability_obligations": len(vac),
            "longest_obligations_ms": sorted([[round(o["ms"]), o["fn"], o["name"]] for o in obs], reverse=True)[:5],
            "failed": [{k: o[k] for k in ("fn", "kind", "name", "where", "detail")} for o in failed][:50],
        },
        "assumptions": ["int is a mathematical integer (no overflow of lines, lengths and indices)",
                        "strings and byte slices are finite sequences of bytes; memory allocation does not fail",
                        "termination and stack depth are not proved",
                        "calls of one program are not concurrent"]
        + ["external function %s: assumed contract" % e for e in sorted(ext)] + sorted(notes),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(failed),
    }
    if searched:
        ev["coverage"]["search_of_the_real_code"] = {"cases": fals.cases, "found": fals.found is not None,
                                                      "role": "replay of a failed obligation" if failed else "bounded cross-check of the oracles, not counted as proof"}
    bad = bool(failed)
    if not bad and fals.found is not None:
        # proved, yet an input fails: the proof or the search is wrong, and neither may stay quiet
        bad = True
        failed = [{"fn": "-", "name": "search and proof agree", "kind": "cross-check", "where": "", "detail": "", "ok": False}]
        ev["violations"] = 1
    ev["wall_s"] = round(time.time() - t0, 1)
    edir = os.path.join(HERE, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %.1fs" % (prop, len(obs), n_ok, time.time() - t0))
    if not bad:
        return 0
    rp = os.path.join(edir, "%s.replay.txt" % prop)
    with open(rp, "w") as f:
        f.write("property %s\n\nfailed obligations:\n" % prop)
        for o in failed[:50]:
            f.write("  %s\n    %s: %s\n    at %s\n    %s\n" % (o["fn"], o["kind"], o["name"], o["where"], o["detail"]))
        if fals.found:
            f.write("\nfailing input (found by falsify/%s_test.go, seed %d):\n%s\n\nwhat fails: %s\n" % (prop.lower(), seed, fals.found["input"], fals.found["what"]))
        else:
            f.write("\nno failing input was found; output of the search:\n%s\n" % fals.output)
    if fals.found:
        print("failing input: %s\n  %s" % (fals.found["input"][:600], fals.found["what"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    else:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
    return 1


def z3version():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    main()
