#!/usr/bin/env python3
"""Keeps planted bugs: seed.py FILE... where FILE is a Python file defining
id, prop, edits=[(file, old, new)], demo (Go test body), needs, breaks, imports.
Writes seeded/<id>/ after confirming in a scratch copy that the change builds, passes
the stable tests, and that the demonstration fails with it and passes without."""
import sys, os, subprocess, tempfile, shutil, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 on a tree where the property holds
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
o=$(mktemp) || exit 2
printf '{"Replace": {"%s/zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$d" > "$o"
timeout 200 go test -overlay "$o" -vet=off -count=1 -timeout 60s -run '^TestDemo$' .
rc=$?
rm -f "$o"
exit $rc
'''


def sh(c, cwd, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)


base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
for f in sys.argv[1:]:
    g = {"imports": ""}
    exec(open(f).read(), g)
    d = os.path.join(HERE, "seeded", g["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    imps = "".join('\t"%s"\n' % i for i in ["testing"] + g["imports"].split())
    open(d + "/demo_test.go", "w").write("package goast\n\nimport (\n%s)\n\n%s\n" % (imps, g["demo"].strip()))
    t = tempfile.mkdtemp(prefix="seed-")
    try:
        sh("cp -a /repo %s/repo" % t, "/")
        r = t + "/repo"
        ok = True
        x = sh(d + "/demo.sh", r)
        if x.returncode != 0:
            print(g["id"], "DEMO FAILS ON THE UNCHANGED TREE", x.stdout[-800:], x.stderr[-300:])
            ok = False
        for p, old, new in g["edits"]:
            s = open(r + "/" + p).read()
            assert s.count(old) == 1, (g["id"], p, s.count(old), old)
            open(r + "/" + p, "w").write(s.replace(old, new))
        x = sh(". /opt/vp/env.sh; go build ./... && go test -vet=off -count=1 -timeout 5m -json ./... > %s/t.json" % t, r, executable="/bin/bash")
        if "build failed" in open(t + "/t.json").read() or sh(". /opt/vp/env.sh; go build ./...", r, executable="/bin/bash").returncode:
            print(g["id"], "DOES NOT BUILD", x.stderr)
            ok = False
        passed = set()
        for l in open(t + "/t.json"):
            j = json.loads(l)
            if j["Action"] == "pass" and j.get("Test"):
                passed.add(j["Package"] + "." + j["Test"])
                passed.add(j["Package"] + "::" + j["Test"])
                passed.add(j["Package"] + "/" + j["Test"])
        miss = [b for b in base if b not in passed]
        if miss:
            print(g["id"], "TESTS FAIL", miss[:5])
            ok = False
        x = sh(d + "/demo.sh", r)
        if x.returncode == 0:
            print(g["id"], "DEMO PASSES WITH THE CHANGE")
            ok = False
        diff = sh("git diff", r).stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(g["id"], "ok" if ok else "REJECTED")
        if not ok:
            shutil.rmtree(d)
    finally:
        shutil.rmtree(t)
