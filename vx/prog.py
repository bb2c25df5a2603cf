"""One translation unit + the contracts: signatures, globals, module generation."""
import os, re, glob
from . import ast, tr, cfg

TOK = re.compile(r"[A-Za-z_][\w']*")


def decls_of(text):
    """module name -> (set of declared identifiers, module text), in order"""
    out = []
    text = re.sub(r"\(\*.*?\*\)", " ", text, flags=re.S)
    for m in re.finditer(r"^module (\w+)(.*?)^end", text, re.S | re.M):
        nm, body = m.group(1), m.group(2)
        ids = set()
        for d in re.finditer(r"^\s*(?:val|let|type|function|predicate|constant|exception|axiom|lemma|inductive|clone)\b((?:\s+(?:rec|ghost|function|predicate|constant|lemma|ref))*)\s+\(?([A-Za-z_][\w']*)", body, re.M):
            if d.group(2) not in ("function", "predicate", "constant", "rec", "ghost", "lemma", "ref", "import", "export"):
                ids.add(d.group(2))
        for d in re.finditer(r"^\s*with\s+(?:function\s+|predicate\s+|ghost\s+)?([a-z_][\w']*)\s*[(:]", body, re.M):
            ids.add(d.group(1))
        for d in re.finditer(r"type\s+\w+[^=\n]*=\s*\{(.*?)\}", body, re.S):
            for f in re.finditer(r"([a-z_][\w']*)\s*:", d.group(1)):
                ids.add(f.group(1))
        for d in re.finditer(r"type\s+\w+[^=\n]*=\s*([^{].*)", body):
            for f in re.finditer(r"\b([A-Z]\w*)", d.group(1)):
                ids.add(f.group(1))
        out.append((nm, ids, body))
    return out


class Prog:
    def __init__(self, unit, specs, genindex):
        self.u, self.specs = unit, specs
        self.T = tr.Types(unit, cfg)
        self.globals = {}
        txt = open(os.path.join(ast.REPO, "src", "utilities.cpp")).read()
        for m in re.finditer(r'^const (?:std::)?string (\w+) = ("(?:[^"\\]|\\.)*");', txt, re.M):
            self.globals[m.group(1)] = tr.cstr(m.group(2))
        self.lits = genindex.lits
        self.gi = genindex
        self._bykey = None

    def key_of(self, d):
        o = d.get("_owner")
        if o is None and d.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl"):
            o = None
        n = len([p for p in tr.inner(d) if p.get("kind") == "ParmVarDecl"])
        return "%s%s/%d" % (o + "::" if o else "", d["name"], n)

    def bykey(self):
        if self._bykey is None:
            self._bykey = {}
            for d in self.u.decl.values():
                if d.get("kind") in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl"):
                    has = any(c.get("kind") == "CompoundStmt" for c in tr.inner(d))
                    k = self.key_of(d)
                    if k not in self._bykey or has:
                        self._bykey[k] = d
        return self._bykey

    def contract(self, key):
        return self.specs.get(key)

    def find_body(self, d):
        return None

    def global_const(self, nm):
        if nm not in self.globals:
            return None
        return (self.lits.get(self.globals[nm]), tr.STR, self.globals[nm])

    def node(self, key):
        d = self.bykey().get(key)
        if d is None or not any(c.get("kind") == "CompoundStmt" for c in tr.inner(d)):
            return None
        return d

    def signature(self, key):
        d = self.bykey().get(key)
        if d is None:
            raise tr.Unsupported("function %s not found" % key)
        sp = self.specs.get(key, {})
        ps = [p for p in tr.inner(d) if p.get("kind") == "ParmVarDecl"]
        params = []
        want = sp.get("params", [])
        names = [want[i] if i < len(want) else p.get("name") or "arg%d" % i for i, p in enumerate(ps)]
        for p, pn in zip(ps, names):
            q = p["type"]["qualType"]
            if pn in sp.get("drop", ()) or "logger" in q:
                params.append(("drop", None))
                continue
            ty = self.T.of(p)
            kind = "val"
            isref = (q.endswith("&") and not q.endswith("&&")) and not q.startswith("const ")
            if q.rstrip().endswith("*") and ty[0] == "ptr":
                ty = ty[1]
                isref = not q.startswith("const ")
            if isref and pn not in sp.get("byval", ()):
                kind = "ref"
            if ty[0] == "ptr":
                raise tr.Unsupported("pointer parameter")
            params.append((kind, ty))
        this, rec = None, None
        if d["kind"] in ("CXXMethodDecl", "CXXConstructorDecl") and d.get("storageClass") != "static":
            rec = d["_owner"]
            const = " const" in d["type"]["qualType"].split(")")[-1]
            this = "val" if const or sp.get("this") == "val" else "ref"
            if sp.get("this") == "drop":
                this = None
        if d["kind"] == "CXXConstructorDecl":
            ret = tr.VOID
        elif "ret" in sp:
            ret = sp["ret"]
        else:
            q = d["type"]["qualType"]
            ret = self.T.parse(q[:q.index("(")].strip()) if not q.startswith("auto") else self.T.parse(q.split("->")[-1].strip())
        o = d.get("_owner")
        why = "f_" + (o + "_" if o else "") + d["name"] + "_%d" % len(ps)
        if sp.get("why"):
            why = sp["why"]
        return {"why": why, "this": this, "thisrec": rec, "pnodes": ps, "pnames": names, "params": params, "ret": ret}

    # ---- records
    def record_text(self, rec, done, out):
        if rec in done or rec == "StdArc":
            return
        done.add(rec)
        T = self.T
        if rec not in self.u.records:
            return
        fs = T.fields(rec)

        def deps(t):
            for x in t[1:]:
                if isinstance(x, tuple):
                    deps(x)
            if t[0] == "rec" or t[0] == "box":
                self.record_text(t[1], done, out)
        for f, t in fs:
            if not (t[0] in ("eptr", "sptr", "ptr")):
                deps(t)
        pre = T.fpre(rec)
        s = "module R_%s\n@USE@\n" % rec
        if rec in cfg.BOXED:
            s += "  type b_%s\n" % rec
        if rec in cfg.LINKED:
            s += "  type l_%s\n" % rec
        if fs:
            s += "  type r_%s = { %s }\n" % (rec, "; ".join("%s%s: %s" % (pre, f, T.why(t)) for f, t in fs))
            s += "".join("  val function set_%s%s (r: r_%s) (v: %s) : r_%s\n  axiom set_%s%s_def: forall r v [set_%s%s r v]. set_%s%s r v = { r with %s%s = v }\n" %
                         ((pre, f, rec, T.why(t), rec) + (pre, f) * 4) for f, t in fs)
        else:
            s += "  type r_%s = { %sdummy: int }\n" % (rec, pre)
        if rec in cfg.BOXED:
            s += "  val function box_%s (x: r_%s) : b_%s\n  val function unbox_%s (x: b_%s) : r_%s\n" % ((rec,) * 6)
            s += "  axiom unbox_box_%s: forall x [box_%s x]. unbox_%s (box_%s x) = x\n  axiom box_unbox_%s: forall x [unbox_%s x]. box_%s (unbox_%s x) = x\n" % ((rec,) * 8)
        if rec in cfg.LINKED:
            s += "  val constant l_null : l_%s\n  val function l_deref (p: l_%s) : r_%s\n" % (rec, rec, rec)
            s += "  val l_new (x: r_%s) : l_%s ensures { l_deref result = x } ensures { result <> l_null }\n" % (rec, rec)
        try:
            parts = []
            for f, t in fs:
                init = T.field_init(rec, f)
                v = None
                if init is not None:
                    fn = tr.Fn(T, self.lits, None, {}, self)
                    v = fn.conv(fn.ex(init), t)
                    if fn.out:
                        v = None
                parts.append("%s%s = %s" % (pre, f, v if v is not None else T.default(t)))
            if fs:
                s += "  let constant dflt_%s : r_%s = { %s }\n" % (rec, rec, "; ".join(parts))
        except tr.Unsupported:
            pass
        s += "end\n"
        out.append(("R_" + rec, s))


class GenIndex:
    """identifier -> module, for automatic `use` clauses"""

    def __init__(self, gendir, specdir, vxdir):
        self.gen = gendir
        self.lits = tr.Lits()
        self.mods = {}    # module qualified name -> (ids, body)
        self.ident = {}
        self.theory_files = {}
        self.add_file("cxx", open(os.path.join(vxdir, "cxx.mlw")).read())
        self.recs = {}
        self.extra_rec_texts = []

    def add_file(self, fname, text):
        for nm, ids, body in decls_of(text):
            q = fname + "." + nm
            self.mods[q] = (ids, body)
            for i in ids:
                self.ident.setdefault(i, q)

    def uses(self, text, own=None):
        toks = set(TOK.findall(re.sub(r"\(\*.*?\*\)|\[@expl:[^\]]*\]", " ", text, flags=re.S)))
        need = set()
        lits = []
        for t in toks:
            if t.startswith("lit_"):
                lits.append(t)
            q = self.ident.get(t)
            if q and q != own:
                need.add(q)
        need.add("cxx.CxxSeq")
        if "++" in text and own != "cxx.CxxApp":
            need.add("cxx.CxxApp")
        order = list(self.mods)
        s = "".join("  use %s\n" % q for q in sorted(need, key=lambda q: order.index(q) if q in order else -1))
        s += "".join("  use lits.L_%s\n" % t[4:] for t in sorted(lits))
        return s, need

    def add_records(self, prog, only=None):
        done = set(self.recs)
        out = []
        for rec in prog.u.records:
            if rec in done:
                continue
            try:
                prog.record_text(rec, done, out)
            except tr.Unsupported as e:
                continue
        for q, s in out:
            self.recs[q[2:]] = s
        for q, s in out:
            for nm, ids, body in decls_of(s.replace("@USE@", "")):
                self.mods["types." + nm] = (ids, body)
                for i in ids:
                    if i != "l_null":
                        self.ident.setdefault(i, "types." + nm)
                    else:
                        self.ident.setdefault(i, "types." + nm)

    def write_types(self):
        # topological order: a record module only uses earlier ones
        left = dict(self.recs)
        text, placed = "", set()
        while left:
            prog = False
            for rec in list(left):
                s = left[rec]
                u, need = self.uses(s.replace("@USE@", ""), own="types.R_" + rec)
                need = {q for q in need if q.startswith("types.") and q != "types.R_" + rec}
                if need <= placed:
                    text += s.replace("@USE@", u.replace("use types.", "use ")) + "\n"
                    placed.add("types.R_" + rec)
                    del left[rec]
                    prog = True
            if not prog:
                break
        open(os.path.join(self.gen, "types.mlw"), "w").write(text)

    def write_lits(self):
        open(os.path.join(self.gen, "lits.mlw"), "w").write(self.lits.text())
