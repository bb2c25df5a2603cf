import sys, os, time, tempfile, shutil
sys.path.insert(0, "/verif")
from vx import prove
t0 = time.time()
work = os.environ.get("VXWORK") or tempfile.mkdtemp(prefix="vxw")
os.makedirs(work, exist_ok=True)
shutil.rmtree(os.path.join(work, "goals"), ignore_errors=True)
args = [a for a in sys.argv[1:] if not a.startswith("-")]
ths = [a[3:] for a in args if a.startswith("th:")]
keys = [a for a in args if not a.startswith("th:")]
s = prove.Session(work)
for k in list(keys):
    if k.startswith("unit:"):
        keys.remove(k)
        keys += [x for x, sp in s.specs.items() if sp["unit"] == k[5:]]
s.load_units(sorted({s.specs[k]["unit"] for k in keys}) or ["fast-d.cpp"])
if True:
    more = s.closure(keys) if keys else []
    if "-all" in sys.argv:
        keys = more
    ths = set(ths) | {t.split(".")[0] for k in more for t in s.specs[k].get("theories", [])}
if False:
    ths = sorted({t.split(".")[0] for k in keys for t in s.specs[k].get("theories", [])})
s.add_theories(sorted(ths))
if "-q" in sys.argv:
    prove.ROUNDS = prove.ROUNDS[:2]
if "-s" in sys.argv:
    prove.ROUNDS = prove.ROUNDS[:1]
if "-nt" in sys.argv:
    s.theory_files = []
r = s.go(keys, verbose=True)
for k, v in r.items():
    n = len(v["goals"])
    print("%-50s %s %d/%d %.1fs %s" % (k, v["status"], sum(g.status == "valid" for g in v["goals"]), n, sum(g.secs for g in v["goals"]), v.get("reason", "")))
    for g in v["goals"]:
        if "-slow" in sys.argv and g.status == "valid" and g.secs > 4:
            print("  slow %.1f" % g.secs, g.expl, g.loc, g.files[0].split("/")[-1], g.by)
        if g.status != "valid":
            print("    ", g.expl, g.loc, g.files[0].split("/")[-1], [x[2][:8] for x in g.tries])
print("wall %.1f work %s" % (time.time() - t0, work))
