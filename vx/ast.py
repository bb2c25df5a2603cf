"""Parse /repo's sources with clang (real headers, third-party ones from a PCH) and
index the declarations of the repository's own files."""
import json, os, subprocess, re, hashlib, sys

REPO = os.environ.get("VX_REPO", "/repo")
INC = ["-I/opt/vp/compat/include", "-I/opt/vp/compat/openfst/include", "-I/usr/include/jsoncpp",
       "-I" + REPO + "/src", "-I" + REPO + "/third-party", "-I" + REPO + "/third-party/spdlog/include"]
HERE = os.path.dirname(os.path.abspath(__file__))
PCH_HEADERS = """vector fstream utility iomanip fst/fstlib.h unordered_map unordered_set stdexcept spdlog/spdlog.h
json/json.h iterator iostream csv/csv.h unicode/ustream.h unicode/unistr.h unicode/locid.h string stdio.h sstream
spdlog/sinks/basic_file_sink.h spdlog/sinks/ansicolor_sink.h spdlog/fmt/fmt.h map set locale limits ctime cstring
cstddef cstdarg codecvt chrono cctype algorithm numeric functional memory cmath cassert deque list array tuple""".split()


def clang():
    for c in ("/usr/bin/clang++-18", "/usr/bin/clang++", "clang++"):
        if os.path.exists(c) or c == "clang++":
            return c


def build_pch(work):
    h = os.path.join(work, "pch.h")
    out = os.path.join(work, "pch.pch")
    if not os.path.exists(out):
        open(h, "w").write("".join("#include <%s>\n" % x for x in PCH_HEADERS))
        subprocess.run([clang(), "-x", "c++-header", "-std=c++17", "-DNDEBUG", "-w"] + INC + [h, "-o", out], check=True)
    return out


def dump(src, work, pch):
    cmd = [clang(), "-std=c++17", "-DNDEBUG", "-w", "-ferror-limit=0"] + INC + ["-I" + HERE + "/strtkstub", "-include-pch", pch,
           "-fsyntax-only", "-Xclang", "-ast-dump=json", src]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if not r.stdout:
        raise RuntimeError("clang: no AST for %s: %s" % (src, r.stderr.decode()[-2000:]))
    return json.loads(r.stdout)


class Unit:
    """All declarations of one translation unit."""

    def __init__(self, src, tree):
        self.src = src
        self.funcs = {}     # name -> list of nodes with bodies
        self.records = {}   # name -> CXXRecordDecl complete definition
        self.typedefs = {}  # name -> desugared string
        self.globals = {}   # name -> VarDecl
        self.decl = {}      # id -> node (functions, vars, params, fields)
        self.parent = {}
        self._walk(tree, None)

    def _walk(self, n, ctx):
        for c in n.get("inner", []):
            k = c.get("kind")
            if not k:
                continue
            if k in ("NamespaceDecl", "LinkageSpecDecl"):
                self._walk(c, ctx)
            elif k == "CXXRecordDecl":
                if "name" in c and c.get("completeDefinition"):
                    self.records[c["name"]] = c
                    self.decl[c["id"]] = c
                    self._walk(c, c["name"])
                elif "name" in c:
                    self._walk(c, c["name"])
            elif k in ("TypedefDecl", "TypeAliasDecl"):
                t = c["type"]
                self.typedefs[c["name"]] = t.get("desugaredQualType", t["qualType"])
            elif k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl"):
                self.decl[c["id"]] = c
                owner = ctx
                if c.get("parentDeclContextId") in self.decl:
                    owner = self.decl[c["parentDeclContextId"]].get("name", ctx)
                c["_owner"] = owner
                if any(x.get("kind") == "CompoundStmt" for x in c.get("inner", [])):
                    self.funcs.setdefault(c["name"], []).append(c)
            elif k == "VarDecl":
                self.globals[c["name"]] = c
                self.decl[c["id"]] = c
            elif k in ("FieldDecl",):
                self.decl[c["id"]] = c
            elif k in ("FunctionTemplateDecl", "ClassTemplateDecl"):
                pass


_cache = {}


def load(name, work, pch):
    """Unit for /repo/src/<name>"""
    if name in _cache:
        return _cache[name]
    src = os.path.join(REPO, "src", name)
    u = Unit(src, dump(src, work, pch))
    _cache[name] = u
    return u
