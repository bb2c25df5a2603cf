"""Mechanical list of what a run trusts: contracts of called functions that are not proved in the same run,
assumed clauses (`trusted` specs), prelude symbols without a body."""
import os, re
HERE = os.path.dirname(os.path.abspath(__file__))


def trusted(sess, P):
    out = []
    keys = set(P["functions"])
    used = set()
    for k in keys:
        used |= sess.called.get(k, set())
    for k in sorted(used - keys):
        sp = sess.specs.get(k, {})
        if sp.get("trusted"):
            out.append("assumed contract: %s (%s)" % (k, sp["trusted"]))
        else:
            own = [q for q, p in __import__("vx.props", fromlist=["PROPS"]).PROPS.items() if k in p["functions"]]
            out.append("contract used, proved by the check of %s: %s" % ("/".join(own) or "NO PROPERTY (assumed)", k))
    txt = re.sub(r"\(\*.*?\*\)", " ", open(os.path.join(HERE, "cxx.mlw")).read(), flags=re.S)
    n = len(re.findall(r"^\s*axiom ", txt, re.M))
    v = len(re.findall(r"^\s*val ", txt, re.M))
    out.append("prelude vx/cxx.mlw: %d axioms and %d declared operations giving C++/std/OpenFst/jsoncpp/ICU semantics" % (n, v))
    out.append("extraction vx/tr.py (clang AST to WhyML), Why3 1.6 VC generator, z3, cvc5")
    for f in getattr(sess, "theory_files", []):
        t = re.sub(r"\(\*.*?\*\)", " ", open(os.path.join(sess.gen, f + ".mlw")).read(), flags=re.S)
        for m in re.finditer(r"^module (\w+)(.*?)^end", t, re.S | re.M):
            ax = re.findall(r"^\s*axiom (\w+)", m.group(2), re.M)
            if ax and ("clone " + m.group(1)) not in t:
                out.append("defining axioms of spec functions, %s.%s: %s" % (f, m.group(1), " ".join(ax)))
    return out
