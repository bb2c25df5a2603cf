#!/usr/bin/env python3
"""Developer tool: build and confirm one planted bug (never used by a check).
seed.py make <id> <json>: json = {property, needs, what_it_breaks, edits:[[file, old, new], ...]}; demo files must be in seeded/<id>/
seed.py test <id> [check]: builds /repo with the patch, runs the stable tests and the demo, and (check) the property's check"""
import sys, os, json, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    return r.returncode, r.stdout.decode("utf8", "replace")


def tests():
    sh("bash /opt/vp/test.sh /tmp/w/t.json")
    return open("/tmp/w/t.json").read()


def main():
    cmd, i = sys.argv[1:3]
    d = os.path.join(ROOT, "seeded", i)
    if cmd == "make":
        m = json.load(open(sys.argv[3]) if sys.argv[3] != "-" else sys.stdin)
        assert sh("git -C /repo status --porcelain --untracked-files=no")[1].strip() == ""
        for f, a, b in m.pop("edits"):
            p = "/repo/" + f
            t = open(p).read()
            assert t.count(a) == 1, (f, a, t.count(a))
            open(p, "w").write(t.replace(a, b))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff")[1])
        sh("git -C /repo checkout -- .")
        json.dump(m, open(d + "/meta.json", "w"), indent=1)
        os.chmod(d + "/demo.sh", 0o755)
        return
    base = json.load(open("/opt/vp/BASELINE.json"))
    m = json.load(open(d + "/meta.json"))
    sh("git -C /repo checkout -- .")
    rc, o = sh("bash /opt/vp/build.sh")
    c0, o0 = sh("bash %s/demo.sh" % d, cwd="/repo")
    rc, o = sh("git -C /repo apply %s/patch.diff" % d)
    assert rc == 0, o
    try:
        rc, o = sh("bash /opt/vp/build.sh")
        print(i, "build", rc, o[-800:] if rc else "")
        t = tests()
        c1, o1 = sh("bash %s/demo.sh" % d, cwd="/repo")
        print("  demo clean %d, patched %d | %s | %s" % (c0, c1, o0.strip()[-200:], o1.strip()[-300:]))
        b = json.loads(t)
        stable = base.get("stable") or base.get("passing") or base.get("tests") or base
        pas = b.get("passed") or [k for k, v in (b.get("tests") or b).items() if v in ("passed", "pass", True)]
        pas = set(pas if isinstance(pas, list) else [])
        miss = [x for x in (stable if isinstance(stable, list) else stable.keys()) if x not in pas]
        print("  stable tests missing:", miss[:6])
        if "check" in sys.argv:
            for pid in m["property"].split():
                rc, o = sh("python3 vx/check.py %s" % pid, cwd=ROOT)
                print("  check %s exit %d: %s" % (pid, rc, [l for l in o.split("\n") if "VIOLATION" in l or "failed obl" in l or "why:" in l][-4:]))
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")


main()
