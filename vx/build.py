"""Compile a replay harness against /repo's current sources."""
import os, subprocess
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VX_REPO", "/repo")
INC = ["-I" + os.path.join(ROOT, "harness"), "-I/opt/vp/compat/include", "-I/opt/vp/compat/openfst/include", "-I/usr/include/jsoncpp",
       "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "third-party"), "-I" + REPO]
LIBS = ["-L/opt/vp/compat/openfst/lib", "-Wl,-rpath,/opt/vp/compat/openfst/lib", "-lfst", "-ljsoncpp", "-lspdlog", "-lfmt", "-licuuc", "-ldl", "-lpthread"]
BASE = ["-w", "-DSPDLOG_FMT_EXTERNAL", "-D_GLIBCXX_ASSERTIONS", "-g0", "-std=c++17"]
SAN = ["-fsanitize=address,signed-integer-overflow,integer-divide-by-zero,shift,bounds,return,unreachable", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
CXX = "clang++"


def comp(job):
    src, obj, flags = job
    r = subprocess.run([CXX, "-c", src, "-o", obj] + flags, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode("utf8", "replace")


def harness(h, work):
    d = os.path.join(work, "h_" + os.path.splitext(h["src"])[0])
    os.makedirs(d, exist_ok=True)
    jobs, objs = [], []
    san = SAN if h.get("san") else []
    flags = [h.get("opt", "-O0")] + BASE + san + h.get("defs", []) + (["-I" + os.path.join(HERE, "strtkstub")] if h.get("strtk") else []) + INC
    use = []
    if h.get("libs", True):
        pch = os.path.join(d, "pch.h.pch")
        r = subprocess.run([CXX, "-x", "c++-header", os.path.join(ROOT, "harness", "pch.h"), "-o", pch, "-fpch-instantiate-templates"] + flags,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 0:
            use = ["-include-pch", pch]
    for s in [os.path.join(ROOT, "harness", x) for x in [h["src"]] + h.get("extra", [])] + [os.path.join(REPO, "src", x) for x in h.get("repo", [])]:
        o = os.path.join(d, os.path.basename(s) + ".o")
        old = os.path.basename(s) == "PathHeap.cpp"   # its comparator is not const: C++14 only, as in the project's build
        jobs.append((s, o, flags + (["-std=gnu++14"] if old else use)))
        objs.append(o)
    order = sorted(jobs, key=lambda j: -os.path.getsize(j[0]) if os.path.exists(j[0]) else 0)
    order.sort(key=lambda j: 0 if "StandardComposition" in j[0] else 1)
    with ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
        for rc, out in ex.map(comp, order):
            if rc:
                return None, out
    exe = os.path.join(d, "run")
    r = subprocess.run([CXX] + san + objs + ["-o", exe] + (LIBS if h.get("libs", True) else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        return None, r.stdout.decode("utf8", "replace")
    return exe, ""
