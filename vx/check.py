#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property on /repo's current source.

1. proof: extract the functions under contract, generate their verification conditions, discharge them
2. replay harness on the compiled code (bounded; finds the failing input)
Exit 0 / 1 + VIOLATION line."""
import sys, os, time, json, re, shutil, subprocess, tempfile, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
from vx import prove, build, props, scan  # noqa: E402

T0 = time.time()
BUDGET = 840


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    tier = "thorough" if thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = props.PROPS[pid]
    work = tempfile.mkdtemp(prefix="vx-%s-" % pid)
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join("evidence", pid + ".replay.json")
    if os.path.exists(os.path.join(ROOT, replay)):
        os.remove(os.path.join(ROOT, replay))
    try:
        code = run(pid, P, tier, thorough, seed, work, ev, replay)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def harnesses(P, work, env, thorough):
    """-> list of results"""
    out = []
    for h in P["harness"]:
        r = {"name": h["src"], "bounded": h["bound"]}
        t = time.time()
        exe, err = build.harness(h, work)
        r["build_s"] = round(time.time() - t, 1)
        if exe is None:
            r["status"], r["detail"] = "not built", err[-3000:]
            out.append(r)
            continue
        t = time.time()
        lim = h.get("limit", 240) * (4 if thorough else 1)
        lim = max(30, min(lim, BUDGET - (time.time() - T0) - 20))
        scratch = os.path.join(work, "scratch")
        os.makedirs(scratch, exist_ok=True)
        try:
            p = subprocess.run([exe] + h.get("args", []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=lim, cwd=scratch)
            so, se, rc = p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace"), p.returncode
        except subprocess.TimeoutExpired as e:
            so, se, rc = (e.stdout or b"").decode("utf8", "replace"), "", "timeout"
        r["run_s"] = round(time.time() - t, 1)
        m = re.search(r"^HARNESS-FAIL (.*)$", so, re.M)
        k = re.search(r"^HARNESS-OK (.*)$", so, re.M)
        r["known"] = [json.loads(x) for x in re.findall(r"^HARNESS-KNOWN (.*)$", so, re.M)]
        if m:
            r["status"] = "fail"
            try:
                r["detail"] = json.loads(m.group(1))
            except ValueError:
                r["detail"] = {"case": m.group(1), "why": ""}
            if se.strip():
                r["stderr"] = se[-2500:]
        elif k and rc == 0:
            r["status"] = "ok"
            r["detail"] = json.loads(k.group(1))
        elif rc == "timeout":
            r["status"], r["detail"] = "timeout", "no answer within %d s" % lim
        else:
            # a crash outside a caught signal (sanitizer report): the case is in the last lines
            c = re.findall(r"^HARNESS-CASE (.*)$", so, re.M)
            r["status"] = "fail"
            r["detail"] = {"case": c[-1] if c else "?", "why": "the program ended with code %s: %s" % (rc, (se or so)[-1500:])}
        out.append(r)
    return out


def run(pid, P, tier, thorough, seed, work, ev, replay):
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, LC_ALL="C.UTF-8",
               ASAN_OPTIONS="detect_leaks=0:detect_container_overflow=0:abort_on_error=1:detect_stack_use_after_return=0",
               UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:print_stacktrace=0")
    log("property", pid, P["title"])
    hs = harnesses(P, work, env, thorough)
    for h in hs:
        log("bounded", h["name"], h["status"], "build %.0fs run %.0fs" % (h.get("build_s", 0), h.get("run_s", 0)),
            "" if h["status"] == "fail" else (h["detail"].get("evaluations") if isinstance(h["detail"], dict) else h["detail"]))
    kf = [k for k in known() if k["property"] == pid and k.get("status") == "known"]
    listed = {k["id"] for k in kf}
    viol = None
    for h in hs:
        for k in h.get("known", []):
            if k["id"] in listed:
                continue
            viol = viol or (h["name"], {"case": k.get("case"), "why": "(unlisted) " + k["id"] + " " + k.get("why", "")}, h)
        if h["status"] == "fail" and viol is None:
            viol = (h["name"], h["detail"], h)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    # ---------------------------------------------------------------- proof
    res, sm, perr = {}, {}, None
    sess = None
    t = time.time()
    try:
        sess = prove.Session(os.path.join(work, "p"))
        keys = [k for k in P["functions"]]
        sess.load_units(sorted({sess.specs[k]["unit"] for k in keys}))
        keys = sess.closure(keys)
        ths = sorted({x.split(".")[0] for k in keys for x in sess.specs[k].get("theories", [])} | set(P.get("theories", [])))
        sess.add_theories(ths)
        deadline = T0 + (BUDGET - 60 if viol is None else min(BUDGET - 60, time.time() - T0 + 60))
        rounds = prove.ROUNDS if viol is None else prove.ROUNDS[:1]
        res = sess.go(keys, deadline=deadline, rounds=rounds)
        if viol is None:
            sm = sess.smoke([k for k in keys if res[k]["status"] == "proved"])
    except Exception:  # the front end itself failed: nothing proved on this run
        perr = traceback.format_exc()
        log("proof machinery:", perr)
    solver_s = sum(g.secs for r in res.values() for g in r["goals"])
    tot = sum(len(r["goals"]) for r in res.values())
    dis = sum(g.status == "valid" for r in res.values() for g in r["goals"])
    by = {}
    for r in res.values():
        for g in r["goals"]:
            if g.by:
                by[g.by] = by.get(g.by, 0) + 1
    fl = []
    for k, r in sorted(res.items()):
        n = len(r["goals"])
        v = sum(g.status == "valid" for g in r["goals"])
        fl.append({"function": k, "status": r["status"], "obligations": n, "discharged": v,
                   "solver_s": round(sum(g.secs for g in r["goals"]), 1), **({"reason": r["reason"][:400]} if r.get("reason") else {})})
        log("contract %-46s %-9s %d/%d" % (k, r["status"], v, n), (r.get("reason") or "")[:200].replace("\n", " "))
        for g in r["goals"]:
            if g.status != "valid" and viol is None:
                log("    obligation not discharged:", g.expl, g.loc)
    vac = [k for k, ok in sm.items() if not ok]
    for k in vac:
        log("vacuous: `false` is provable at every exit of", k)
    failed = [(k, g) for k, r in res.items() for g in r["goals"] if g.status != "valid" and r["status"] == "unproved"]
    open_ = {(k["function"], k["obligation"]) for k in known() if k.get("status") == "open-obligation" and k["property"] == pid}
    failed = [(k, g) for k, g in failed if not any(k == f and g.expl.startswith(o) for f, o in open_)]
    cut = [(k, g) for k, g in failed if g.cut]
    failed = [(k, g) for k, g in failed if not g.cut]
    outside = [k for k, r in res.items() if r["status"] == "outside"]
    code, line = 0, None
    if viol is not None:
        code = 1
        json.dump({"property": pid, "harness": "harness/" + viol[0], "case": viol[1].get("case"), "why": viol[1].get("why"),
                   "stderr": viol[2].get("stderr", ""),
                   "rerun": "VERIF_SEED=%d VERIF_TIER=%s python3 vx/check.py %s" % (seed, tier, pid)},
                  open(os.path.join(ROOT, replay), "w"), indent=1)
        log("failing case:", str(viol[1].get("case"))[:1500])
        log("why:", str(viol[1].get("why"))[:1500])
        line = "VIOLATION property=%s replay=%s" % (pid, replay)
    elif failed and not perr:
        code = 1
        json.dump({"property": pid, "failed_obligations": [
            {"function": k, "obligation": g.expl, "where": "generated WhyML " + g.loc, "solvers": [list(x) for x in g.tries],
             "vc": open(g.files[0]).read()[-4000:]} for k, g in failed[:8]],
            "note": "obligations of the contracts that the verifier no longer discharges; the bounded replay of the compiled code found no failing input"},
            open(os.path.join(ROOT, replay), "w"), indent=1)
        for k, g in failed[:8]:
            log("failed obligation: %s of %s" % (g.expl, k))
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay)
    trusted = scan.trusted(sess, P) if sess else []
    cov = {"obligations": tot, "discharged": dis,
           "checker_cmd": "python3 vx/check.py %s  (why3 1.6 VC generation; z3 4.8.12, z3 5.3.2, cvc5 1.1.2)" % pid,
           "trusted_base": trusted, "functions_under_contract": fl, "discharged_by": by, "solver_seconds": round(solver_s, 1),
           "vacuity_checks": {"functions": len(sm), "vacuous": vac},
           "outside_the_verifier_on_this_run": outside, "undecided_for_lack_of_time": len(cut),
           "bounded_stand_ins": [{k: v for k, v in h.items() if k not in ("known",)} for h in hs],
           "evaluations": sum(h["detail"].get("evaluations", 0) for h in hs if h["status"] == "ok"),
           "distinct_nontrivial": sum(h["detail"].get("distinct_nontrivial", 0) for h in hs if h["status"] == "ok"),
           "rule": "cases of the bounded replay harness (never counted as proved): see bounded_stand_ins; non-trivial = distinct inputs that exercise the branch the property is about",
           "samples": [s for h in hs if h["status"] == "ok" for s in h["detail"].get("samples", [])][:8]}
    if perr:
        cov["proof_machinery_error"] = perr[-2000:]
    if P["level"] != "proof":
        cov["explanation"] = P.get("explanation", "")
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov, "assumptions": props.ASSUME + P.get("assume", []),
               "wall_s": round(time.time() - T0, 1), "violations": code}, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    log("obligations %d discharged %d; bounded evaluations %d" % (tot, dis, cov["evaluations"]))
    if line:
        print(line, flush=True)
    else:
        log("held")
    return code


if __name__ == "__main__":
    main()
