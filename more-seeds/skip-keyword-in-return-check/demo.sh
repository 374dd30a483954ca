#!/bin/bash
# exit 0 on a tree where the property holds
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
o=$(mktemp) || exit 2
printf '{"Replace": {"%s/zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$d" > "$o"
timeout 200 go test -overlay "$o" -vet=off -count=1 -timeout 60s -run '^TestDemo$' .
rc=$?
rm -f "$o"
exit $rc
