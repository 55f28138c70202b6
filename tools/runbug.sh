#!/bin/bash
# runbug.sh <bug> [props...]: apply, run checks, undo
b=$1; shift
p=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$b/patch.diff || exit 9
for x in $p; do timeout 900 python3 /verif/check.py $x quick > /tmp/bug-$b-$x.log 2>&1; echo "$b $x rc=$? $(grep -m1 VIOLATION /tmp/bug-$b-$x.log | cut -c1-200)"; done
git -C /repo checkout -- .
