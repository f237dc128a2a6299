#!/usr/bin/env python3
"""mkbug.py ID: reads /tmp/w/bug.py (dict B: file -> [(old,new)...], META, DEMO, FILES) and writes seeded/ID."""
import sys, subprocess, json, os
i = sys.argv[1]
ns = {}
exec(open(sys.argv[2] if len(sys.argv) > 2 else "/tmp/w/bug.py").read(), ns)
assert not subprocess.check_output(["git","-C","/repo","status","--porcelain"])
try:
    for f, reps in ns["B"].items():
        p = "/repo/" + f
        s = open(p).read()
        for o, n in reps:
            assert s.count(o) == 1, (f, s.count(o), o)
            s = s.replace(o, n)
        open(p, "w").write(s)
    d = "/verif/seeded/" + i
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git","-C","/repo","diff"], text=True))
finally:
    subprocess.check_call(["git","-C","/repo","checkout","-q","--","."])
json.dump(ns["META"], open(d + "/meta.json", "w"), indent=1)
for n, t in ns.get("FILES", {}).items():
    open(d + "/" + n, "w").write(t)
RS = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
L=/repo/target/debug
rustc --edition 2024 "$here/demo.rs" --extern litcheck_core=$L/liblitcheck_core.rlib --extern litcheck_filecheck=$L/liblitcheck_filecheck.rlib --extern litcheck_lit=$L/liblitcheck_lit.rlib -L dependency=$L/deps -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
'''
open(d + "/demo.sh", "w").write(ns.get("DEMO") or RS)
os.chmod(d + "/demo.sh", 0o755)
