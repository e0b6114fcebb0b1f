#!/bin/bash
# trybug.sh ID [PROPERTY...] : apply seeded/ID, run its demo and the check(s) against it, undo.  -n: no demo
D=/verif/seeded/$1; shift
P=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
git -C /repo apply "$D/patch.diff" || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NODEMO" ]; then
  bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD FAILED"
  (cd /repo && timeout 300 bash "$D/demo.sh" >/tmp/demo.out 2>&1); echo "$D demo with patch: exit $?"
fi
for p in $P; do (cd /verif && ESIM_BUILD=/verif/build ./check $p 2>&1 | grep -E "VIOLATION|ERROR|class=|quick:|thorough:" | cut -c1-200); done
