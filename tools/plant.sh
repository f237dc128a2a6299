#!/bin/bash
# tools/plant.sh ID [quick]: confirms a planted bug in /repo itself, then undoes it.
# (demo passes before; patch applies, builds, stable tests pass, demo fails; which check reports it)
here=$(cd "$(dirname "$0")/.." && pwd)
d=$here/seeded/$1
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1
if ! timeout 300 bash "$d/demo.sh" >/tmp/plant.demo0 2>&1; then echo "$1: DEMO FAILS ON THE UNCHANGED TREE"; tail -5 /tmp/plant.demo0; exit 1; fi
git apply "$d/patch.diff" || { echo "$1: patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/plant.build 2>&1 || { echo "$1: does not build"; tail -20 /tmp/plant.build; exit 1; }
if [ "$2" != quick ]; then
bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1
python3 - <<'P' || exit 1
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/plant.json'))
st=b.get('stable') or b.get('passed') or b.get('tests')
ok=set(o['passed'] if 'passed' in o else o['pass'])
missing=[t for t in st if t not in ok]
print("stable tests broken:",missing) if missing else None
raise SystemExit(1 if missing else 0)
P
fi
if timeout 300 bash "$d/demo.sh" >/tmp/plant.demo1 2>&1; then echo "$1: DEMO PASSES WITH THE PATCH"; exit 1; fi
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
VH_OUT=/tmp/plant.out "$here/check" "$prop" >/tmp/plant.check 2>&1; rc=$?
echo "$1: valid; check $prop exit $rc: $(grep -m1 -A1 VIOLATION /tmp/plant.check | tail -1)"
