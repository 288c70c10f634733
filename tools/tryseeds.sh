#!/bin/bash
# tryseeds.sh [-t] id...: demo without and with the patch, the property's check with it; -t also runs the test suite
t=0; [ "$1" = -t ] && { t=1; shift; }
R=${R:-/repo}     # another tree: no build, no tests
cd $R || exit 2
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "$R is not clean"; exit 2; }
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  timeout 300 bash $d/demo.sh >/tmp/ts.o 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id does not apply"; continue; }
  [ $R != /repo ] || bash /opt/vp/build.sh >/tmp/ts.b 2>&1 || echo "$id does not build"
  timeout 300 bash $d/demo.sh >/tmp/ts.o 2>&1; b=$?
  c=-; [ -n "$NOCHECK" ] || { (cd /verif && VF_REPO=$R timeout 900 python3 run.py check $p >/tmp/ts.c 2>&1); c=$?; }
  s=-; if [ $t = 1 ]; then bash /opt/vp/test.sh /tmp/ts.json >/dev/null 2>&1; s=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/ts.json'))
f=lambda d: set(d.get('passed') or d.get('pass') or d.get('stable') or [])
print(len(f(b)-f(o)) if f(b) else list(b)[:5])
P
); fi
  git checkout -q -- .
  echo "$id $p demo(clean)=$a demo(bug)=$b check=$c missing_tests=$s $(grep -m1 -a VIOLATION /tmp/ts.c | cut -c1-90) $(tail -1 /tmp/ts.o | cut -c1-80)"
done
[ $R != /repo ] || bash /opt/vp/build.sh >/dev/null 2>&1
