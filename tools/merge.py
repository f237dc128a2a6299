#!/usr/bin/env python3
"""merge.py PROP PART...: one evidence file out of those that the parts of a check wrote."""
import json, os, sys
prop, parts = sys.argv[1], sys.argv[2:]
out = os.path.join(os.environ["VH_OUT"], prop + ".json")
docs = []
for p in parts:
    with open(os.path.join(p, prop + ".json"), encoding="utf-8") as f:
        docs.append(json.load(f))
d = docs[0]
for e in docs[1:]:
    c, k = d["coverage"], e["coverage"]
    for n in ("evaluations", "distinct_nontrivial"):
        c[n] += k[n]
    c["rule"] += " / " + k["rule"]
    c["samples"] = c["samples"][:4] + k["samples"][:4]
    for n, v in k.items():
        if isinstance(v, dict):
            o = c.setdefault(n, {})
            for a, b in v.items():
                o[a] = o.get(a, 0) + b
        elif n not in c:
            c[n] = v
    d["assumptions"] = list(d.get("assumptions", [])) + list(e.get("assumptions", []))
    d["wall_s"] = round(d["wall_s"] + e["wall_s"], 2)
    d["violations"] = d.get("violations", 0) + e.get("violations", 0)
with open(out, "w", encoding="utf-8") as f:
    json.dump(d, f, indent=1, ensure_ascii=False)
