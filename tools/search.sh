#!/bin/bash
# runs the searches alone: search.sh SECONDS ID...
export VROOT=$(cd $(dirname $0)/..; pwd)
secs=$1; shift
for id in "$@"; do
python3-vt - $id $secs <<'P'
import os, sys, tempfile, shutil
b=os.environ["VROOT"]; sys.path.insert(0, b); sys.path.insert(0, b+"/engine")
import os; os.environ["PYTHONHASHSEED"] = "0"
import check
d = tempfile.mkdtemp()
f = check.Falsifier(sys.argv[1], d, check.goenv(d), int(sys.argv[2]), int(os.environ.get("VERIF_SEED", "1")))
f.run()
print(sys.argv[1], "cases", f.cases, "found", f.found, "" if f.cases else f.output[:1500])
shutil.rmtree(d)
P
done
