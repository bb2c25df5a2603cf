"""dev: record the parameter names the contracts use (spec/params.json), so that a contract refers to parameters by position"""
import sys, os, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vx import prove, tr
P = os.path.join(ROOT, "spec", "params.json")
s = prove.Session("/tmp/vx-params")
s.load_units(sorted({v["unit"] for v in s.specs.values()}))
old = json.load(open(P)) if os.path.exists(P) else {}
for k, v in s.specs.items():
    if k in old:
        continue
    n = s.progs[v["unit"]].node(k)
    old[k] = [p.get("name") or "arg%d" % i for i, p in enumerate(q for q in tr.inner(n) if q.get("kind") == "ParmVarDecl")]
json.dump({k: old[k] for k in sorted(old) if k in s.specs}, open(P, "w"), indent=0)
