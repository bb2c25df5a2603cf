"""Generate the proof obligations of a set of functions from the current source and discharge them."""
import json, os, re, subprocess, time, shutil, traceback, importlib.util, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import ast, tr, cfg, prog as P

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
CONF = os.path.join(HERE, "why3.conf")
NCPU = max(2, min(8, os.cpu_count() or 2))


def load_specs():
    """key -> contract, over all spec/*.py"""
    specs = {}
    pj = os.path.join(SPEC, "params.json")
    params = json.load(open(pj)) if os.path.exists(pj) else {}
    for f in sorted(os.listdir(SPEC)):
        if f.endswith(".py") and f.startswith("s_"):
            sp = importlib.util.spec_from_file_location(f[:-3], os.path.join(SPEC, f))
            m = importlib.util.module_from_spec(sp)
            sp.loader.exec_module(m)
            for k, v in m.SPECS.items():
                v["key"] = k
                v.setdefault("unit", m.UNIT)
                if k in params:
                    v.setdefault("params", params[k])
                specs[k] = v
    return specs


class Goal:
    def __init__(self, owner, expl, loc, files):
        self.owner, self.expl, self.loc, self.files = owner, expl, loc, files
        self.status, self.by, self.secs = None, None, 0.0
        self.tries = []
        self.cut = False


def why3_split(path, outdir, prover, L):
    os.makedirs(outdir, exist_ok=True)
    cmd = ["why3", "-C", CONF, "prove"] + sum([["-L", x] for x in L], []) + ["-P", prover, "-a", "split_vc"]
    if prover != "Dummy":
        cmd += ["-o", outdir]
    if open(path).read(20).startswith("(* vc_sp *)"):
        cmd += ["--debug", "vc_sp"]
    try:
        r = subprocess.run(cmd + [path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=150)
    except subprocess.TimeoutExpired:
        return 1, "", "generation of the obligations ran out of time"
    return r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")


def numkey(f):
    m = re.match(r"^(.*?)(\d*)\.smt2$", f)
    return m.group(1), int(m.group(2) or 0)


def make_goals(owner, path, work, L):
    """why3 -> list of Goal; raises RuntimeError with why3's message on a typing error"""
    base = os.path.join(work, "goals", owner.replace("/", "_").replace(":", "_"))
    with ThreadPoolExecutor(3) as ex:
        fz = ex.submit(why3_split, path, base + ".z3", "Z3", L)
        fc = ex.submit(why3_split, path, base + ".cvc5", "CVC5", L)
        fd = ex.submit(why3_split, path, base + ".d", "Dummy", L)
        rz, rc, rd = fz.result(), fc.result(), fd.result()
    for r in (rz, rc, rd):
        if r[2].endswith("ran out of time"):
            raise RuntimeError(r[2])
    if rz[0] != 0 and not os.listdir(base + ".z3"):
        raise RuntimeError((rz[2] + rz[1]).strip())
    zs = os.listdir(base + ".z3")
    cs = set(os.listdir(base + ".cvc5"))
    info = [(a, b, " ".join(c.split()), d, e) for a, b, c, d, e in re.findall(
        r'(?:File "([^"]*)", line (\d+),[^\n]*\n|\n)(?:Sub-goal ([^.]*?)\s+of\s+goal\s+(\S*?)|Goal (\S*?))\.\nProver result is', rd[1])]
    # order of goals in the file: as printed; files are named <file>-<module>-<goal>[N]
    by = {}
    for f in zs:
        k, i = numkey(f)
        by.setdefault(k, []).append((i, f))
    groups = {k: [f for i, f in sorted(v)] for k, v in by.items()}
    goals = []
    # assign explanations group by group, in order of appearance
    cnt = {}
    infos = {}
    for fl, line, sub, g1, g2 in info:
        infos.setdefault((g1 or g2), []).append((sub or "goal", "line " + line))
    for k, fs in sorted(groups.items()):
        gname = None
        with open(os.path.join(base + ".z3", fs[0])) as fh:
            m = re.findall(r';; Goal "([^"]*)"', fh.read())
            gname = m[-1] if m else None
        lst = infos.get(gname, [])
        off = cnt.get(gname, 0)
        for j, f in enumerate(fs):
            e = lst[off + j] if off + j < len(lst) else ("goal", "?")
            files = [os.path.join(base + ".z3", f)] + ([os.path.join(base + ".cvc5", f)] if f in cs else [])
            goals.append(Goal(owner, "%s [%s]" % (e[0], gname), e[1], files))
        cnt[gname] = off + len(fs)
    return goals


SOLV = {
    "z3": lambda f, t: ["z3", "-smt2", "-T:%d" % t, "smt.random_seed=42", f[0]],
    "z3-nombqi": lambda f, t: ["z3", "-smt2", "-T:%d" % t, "smt.mbqi=false", "smt.auto_config=false", f[0]],
    "z3-seed7": lambda f, t: ["z3", "-smt2", "-T:%d" % t, "smt.random_seed=7", "smt.mbqi=false", "smt.auto_config=false", "smt.arith.solver=2", f[0]],
    "z3-new": lambda f, t: ["z3-new", "-smt2", "-T:%d" % t, f[0]],
    "cvc5": lambda f, t: ["cvc5", "--tlimit=%d" % (t * 1000), f[-1]],
    "cvc5-enum": lambda f, t: ["cvc5", "--tlimit=%d" % (t * 1000), "--enum-inst", f[-1]],
}
ROUNDS = [[("z3-nombqi", 1), ("cvc5", 1), ("z3-new", 1)], [("z3-nombqi", 6), ("cvc5", 8), ("z3", 5), ("z3-new", 6)],
          [("cvc5", 30), ("z3-new", 25), ("z3-seed7", 25), ("z3", 25), ("cvc5-enum", 25)]]


def run_solver(name, files, t):
    t0 = time.time()
    try:
        r = subprocess.run(SOLV[name](files, t), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=t + 5)
        out = r.stdout.decode("utf8", "replace").strip().split("\n")[0].strip()
    except subprocess.TimeoutExpired:
        out = "timeout"
    return out, time.time() - t0


def solve(goals, rounds=None, deadline=None, log=None):
    rounds = rounds or ROUNDS
    for ri, rd in enumerate(rounds):
        todo = [g for g in goals if g.status != "valid"]
        if not todo:
            break
        if deadline and time.time() > deadline:
            for g in todo:
                g.cut = True
            break

        def one(g):
            for name, t in rd:
                if deadline and time.time() > deadline:
                    g.cut = True
                    return
                out, s = run_solver(name, g.files, t)
                g.secs += s
                g.tries.append((name, t, out))
                if out == "unsat":
                    g.status, g.by = "valid", name
                    return
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, todo))
    for g in goals:
        if g.status != "valid":
            g.status = "unproved"


class Session:
    def __init__(self, work, specs=None):
        self.work = work
        self.specs = specs or load_specs()
        self.gen = os.path.join(work, "gen")
        os.makedirs(self.gen, exist_ok=True)
        self.L = [self.gen, HERE]
        self.units, self.progs = {}, {}
        self.gi = P.GenIndex(self.gen, SPEC, HERE)
        self.pch = None
        self.called = {}

    def load_units(self, names):
        names = [n for n in names if n not in self.units]
        if not names:
            return
        if self.pch is None:
            self.pch = ast.build_pch(self.work)
        with ThreadPoolExecutor(NCPU) as ex:
            us = list(ex.map(lambda n: ast.load(n, self.work, self.pch), names))
        for n, u in zip(names, us):
            self.units[n] = u
            self.progs[n] = P.Prog(u, self.specs, self.gi)
        for n in names:
            self.gi.add_records(self.progs[n])

    def closure(self, keys):
        """the functions and everything they call that has a contract"""
        keys = list(keys)
        for k in keys:
            self.load_units([self.specs[k]["unit"]])
            try:
                self.function_text(k)
            except tr.Unsupported:
                continue
            keys += sorted(c for c in self.called.get(k, ()) if c not in keys and not self.specs[c].get("trusted"))
        return keys

    def add_theories(self, files):
        """spec/<f>.mlw: string literals replaced, `use` lines completed"""
        texts = {}
        files = list(files)
        for f in files:   # the theories they use come along
            for d in re.findall(r"(?m)^\s*use (th_\w+)\.", open(os.path.join(SPEC, f + ".mlw")).read()):
                if d not in files:
                    files.append(d)
        for f in files:
            raw = open(os.path.join(SPEC, f + ".mlw")).read()
            used = set()
            texts[f] = tr.lit_sub(raw, self.gi.lits, used)
            self.gi.add_file(f, texts[f])
        for f in files:
            out = []
            for part in re.split(r"(?m)^(?=module )", texts[f]):
                m = re.match(r"module (\w+)", part)
                if m:
                    u, _ = self.gi.uses(part, own=f + "." + m.group(1))
                    # an explicit use wins; drop self references and later modules of the same file are not used
                    lines = [l for l in u.split("\n") if l.strip()]
                    keep = []
                    for l in lines:
                        q = l.split()[1]
                        if q.startswith("th_"):   # theories are used explicitly
                            continue
                        keep.append(l)
                    part = part.replace(m.group(0), m.group(0) + "\n" + "\n".join(keep), 1)
                out.append(part)
            open(os.path.join(self.gen, f + ".mlw"), "w").write("".join(out))
        self.theory_files = files

    def function_text(self, key, smoke=False):
        sp = self.specs[key]
        if smoke:
            sp = dict(sp, ensures=[("smoke", "false")])
        pg = self.progs[sp["unit"]]
        node = pg.node(key)
        if node is None:
            raise tr.Unsupported("no definition of %s in %s" % (key, sp["unit"]))
        fn = tr.Fn(pg.T, self.gi.lits, node, sp, pg)
        fn.spec.setdefault("loops", {})
        body = fn.translate()
        vals = ""
        self.called[key] = set(fn.calls) - {key}
        for k in sorted(fn.calls):
            if k == key:
                continue
            f2 = tr.Fn(pg.T, self.gi.lits, None, self.specs[k], pg)
            vals += "  " + f2.declaration() + "\n"
        mod = "F_" + re.sub(r"\W", "_", key)
        text = vals + "\n  " + body + "\n"
        u, need = self.gi.uses(text)
        u = re.sub(r"(?m)^  use th_\S*\n", "", u)   # theories are the ones the contract names
        ths = list(sp.get("theories", []))
        for k in sorted(fn.calls):
            ths += [t for t in self.specs[k].get("vocab", self.specs[k].get("theories", [])) if self.specs[k]["unit"] != sp["unit"] and t not in ths]
        for th in ths:
            u += "  use %s\n" % th
        self.nloops = fn.loopno
        extra = [i for i in sp.get("loops", {}) if i >= fn.loopno]
        if extra:
            raise tr.Unsupported("the function has %d loops, the contract annotates loop %s" % (fn.loopno, extra[0]))
        return "module %s\n%s\n%s\nend\n" % (mod, u, text)

    def smoke(self, keys):
        """key -> True when `false` is not provable at every exit (contracts and axioms are consistent)"""
        out = {}

        def one(k):
            try:
                p = os.path.join(self.gen, "s_" + re.sub(r"\W", "_", k) + ".mlw")
                with open(p, "w") as f:
                    f.write(("(* vc_sp *)\n" if self.specs[k].get("sp") else "") + self.texts_smoke[k])
                base = os.path.join(self.work, "smoke", re.sub(r"\W", "_", k))
                why3_split(p, base, "Z3", self.L)
                fs = []
                for f in sorted(os.listdir(base)):
                    t = open(os.path.join(base, f)).read()
                    if re.search(r"\(assert\s*\n?;;[^\n]*\n[^\n]*\n?\s*\(not false\)\)|\(not\s+false\)", t[-400:]) or t.rstrip()[:-len("(check-sat)")].rstrip()[-400:].find("(not false)") >= 0:
                        fs.append(os.path.join(base, f))
                if not fs:
                    # the exits were simplified away: nothing to compare with
                    return k, None
                for f in fs[:12]:
                    o, _ = run_solver("z3-nombqi", [f], 2)
                    if o != "unsat":
                        return k, True
                return k, len(fs) > 12
            except Exception:
                return k, None
        with ThreadPoolExecutor(NCPU) as ex:
            for k, ok in ex.map(one, keys):
                out[k] = ok
        return out

    def go(self, keys, deadline=None, verbose=False, rounds=None):
        """-> dict key -> {status: proved|unproved|outside, goals, reason}"""
        res = {}
        keys = list(keys)
        need = sorted({self.specs[k]["unit"] for k in keys})
        self.load_units(need)
        texts = {}
        self.texts_smoke = {}
        for k in keys:
            try:
                self.texts_smoke[k] = self.function_text(k, smoke=True)
                texts[k] = self.function_text(k)
            except tr.Unsupported as e:
                res[k] = {"status": "outside", "reason": "translation: %s" % e, "goals": []}
            except (KeyError, IndexError, AttributeError, AssertionError, TypeError, ValueError) as e:
                res[k] = {"status": "outside", "reason": "translation: %s" % (traceback.format_exc() if verbose else repr(e)), "goals": []}
        self.gi.write_types()
        self.gi.write_lits()
        paths = {}
        for k, t in texts.items():
            p = os.path.join(self.gen, "f_" + re.sub(r"\W", "_", k) + ".mlw")
            open(p, "w").write(("(* vc_sp *)\n" if self.specs[k].get("sp") else "") + t)
            paths[k] = p
        for f in getattr(self, "theory_files", []):
            paths["theory:" + f] = os.path.join(self.gen, f + ".mlw")

        def mk(k):
            try:
                return k, make_goals(k, paths[k], self.work, self.L), None
            except RuntimeError as e:
                return k, [], str(e)
        allg = []
        with ThreadPoolExecutor(NCPU) as ex:
            for k, gs, err in ex.map(mk, list(paths)):
                if err:
                    res[k] = {"status": "outside", "reason": "typing: " + "\n".join(l for l in err.split("\n") if not l.startswith("Warning"))[:1500], "goals": [], "text": paths[k]}
                else:
                    res[k] = {"status": None, "goals": gs, "text": paths[k]}
                    allg += gs
        solve(allg, rounds=rounds, deadline=deadline)
        for k, r in res.items():
            if r["status"] is None:
                if not r["goals"]:
                    r["status"] = "outside" if not k.startswith("theory:") else "proved"
                    r["reason"] = "no obligations generated"
                else:
                    r["status"] = "proved" if all(g.status == "valid" for g in r["goals"]) else "unproved"
        return res
