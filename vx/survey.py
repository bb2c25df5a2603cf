"""dev: which functions of a unit the extraction accepts (empty contracts)"""
import sys, os, collections
sys.path.insert(0, "/verif")
from vx import prove, tr, ast
import traceback
class DD(dict):
    def __contains__(s, k): return True
    def __getitem__(s, k): return {"inv": []}
work = "/tmp/w/sv"; os.makedirs(work, exist_ok=True)
units = sys.argv[1:] or sorted(f for f in os.listdir(ast.REPO + "/src") if f.endswith(".cpp") and f not in ("main.cpp",))
s = prove.Session(work)
for u in units:
    try:
        s.load_units([u])
    except Exception as e:
        print(u, "LOAD", str(e)[:300]); continue
    pg = s.progs[u]
    for key, d in sorted(pg.bykey().items()):
        nd = pg.node(key)
        if nd is None: continue
        if not str(nd.get("_file", "")).endswith(u) and nd.get("_file"): pass
        s.specs.setdefault(key, {"key": key, "unit": u})
    for key, d in sorted(pg.bykey().items()):
        nd = pg.node(key)
        if nd is None: continue
        sp = dict(s.specs[key]); sp["loops"] = DD(); sp["ghost"] = {}
        sv = s.specs[key]; s.specs[key] = sp
        try:
            s.function_text(key)
            print(u, key, "OK loops=%d" % s.nloops, "calls", sorted(s.called[key]))
        except tr.Unsupported as e:
            print(u, key, "UNSUP", str(e)[:200])
        except Exception as e:
            print(u, key, "EXC", repr(e)[:200], traceback.format_exc().split("\n")[-4].strip()[:150])
        s.specs[key] = sv
