"""Write MANIFEST.json from props.py and properties.jsonl (run by hand when they change)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
from vx import props
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
checks = []
for pid in ids:
    if pid not in props.PROPS:
        continue
    P = props.PROPS[pid]
    checks.append({"property": pid, "quick_cmd": "python3 vx/check.py %s" % pid, "thorough_cmd": "python3 vx/check.py %s --thorough" % pid,
                   "technique": P.get("technique", "contracts on the real functions (clang AST to WhyML), VCs discharged by z3/cvc5; bounded replay on the compiled code for counterexamples"),
                   "level": P["level"], "level_note": P.get("note", "All obligations of the listed functions are discharged on every run for all inputs; the replay harness is bounded and only supplies failing inputs. Trusts vx/cxx.mlw, the extraction, Why3, z3, cvc5.")})
m = {"version": 1, "setup_cmd": "python3 vx/setup.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": props.NOT_APPLICABLE.get(p, "no check yet")} for p in ids if p not in props.PROPS],
     "notes": "See DESIGN.md. Every check extracts the functions it needs from /repo/src on every run; nothing is cached between runs."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
