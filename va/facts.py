"""Fact base: runs the clang-based extractor over /repo's current sources and
merges the per-TU facts.  Nothing of /repo is executed."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import pickle
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOL_SRC = os.path.join(VERIF, "tool", "vfx.cpp")
INST = os.path.join(VERIF, "tool", "inst.cpp")

# Sources of /repo that the build cannot compile here (missing third party
# headers); they are listed in the evidence as not analysed.
NOT_BUILT = {
    "lib/Sampling/SampleSetParser.cpp",
    "lib/Sampling/SamplingMethods.cpp",
    "tools/config-generator/ConfigurationGenerator.cpp",
}


class AnalysisBroken(Exception):
    pass


def flags():
    llvm = "/usr/lib/llvm-14/include"
    return [
        "-std=c++17", "-DNDEBUG", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
        "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
        "-isystem", llvm, "-I" + os.path.join(REPO, "include"),
        "-I" + os.path.join(REPO, "lib/Feature"),
        "-isystem", "/usr/include/libxml2", "-isystem",
        "/usr/include/python3.12", "-resource-dir",
        "/usr/lib/llvm-18/lib/clang/18", "-w", "-ferror-limit=0",
    ]


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    with open(TOOL_SRC, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "vfx-" + h)
    if os.path.exists(exe):
        return exe
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        cxxflags = subprocess.check_output(
            ["/usr/lib/llvm-18/bin/llvm-config", "--cxxflags"], text=True).split()
        cxxflags = [c for c in cxxflags if c != "-DNDEBUG"]
        cmd = ["/usr/lib/llvm-18/bin/clang++", "-O1"] + cxxflags + [
            "-fno-rtti", TOOL_SRC, "-o", exe + ".tmp",
            "-L/usr/lib/llvm-18/lib", "-L/usr/lib/x86_64-linux-gnu",
            "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken("extractor does not build:\n" + r.stderr[-4000:])
        os.replace(exe + ".tmp", exe)
    return exe


def translation_units():
    tus = [INST]
    pats = ["lib/**/*.cpp", "tools/**/*.cpp", "bindings/**/*.cpp"]
    for p in pats:
        for f in sorted(glob.glob(os.path.join(REPO, p), recursive=True)):
            rel = os.path.relpath(f, REPO)
            if rel in NOT_BUILT:
                continue
            tus.append(f)
    return tus


def tree_hash():
    h = hashlib.sha256()
    for root in ("lib", "include", "tools", "bindings"):
        for d, dn, fn in os.walk(os.path.join(REPO, root)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".cpp", ".h", ".hpp", ".txt", ".inc", ".def")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, REPO).encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    for p in (TOOL_SRC, INST, os.path.abspath(__file__)):
        with open(p, "rb") as fh:
            h.update(fh.read())
    h.update(REPO.encode())
    return h.hexdigest()[:20]


def headers_hash():
    h = hashlib.sha256()
    for d, dn, fn in os.walk(REPO):
        dn[:] = sorted(x for x in dn if x not in ("_build", ".git"))
        for f in sorted(fn):
            if f.endswith((".h", ".hpp", ".inc", ".def")):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h


def extract_one(exe, f, out):
    # development only: facts per translation unit (mutation sampling)
    tc = os.environ.get("VA_TUCACHE")
    if tc:
        h = headers_hash()
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update((f + exe + REPO).encode())
        c = os.path.join(tc, h.hexdigest()[:24])
        if os.path.exists(c):
            shutil.copy(c, out)
            return f, 0, ""
        r = extract_run(exe, f, out)
        if os.path.exists(out):
            os.makedirs(tc, exist_ok=True)
            shutil.copy(out, c + ".%d" % os.getpid())
            os.replace(c + ".%d" % os.getpid(), c)
        return r
    return extract_run(exe, f, out)


def extract_run(exe, f, out):
    r = subprocess.run(
        [exe, out, REPO + "/," + os.path.join(VERIF, "tool") + "/", f, "--"]
        + flags(), capture_output=True, text=True, cwd=BUILD)
    return f, r.returncode, r.stderr


_TYPE_KEYS = ("t", "rt", "from", "nt", "ot", "ct", "base")


def _resolve(node, types, tu):
    """replace type indices by strings, make local ids unique per TU"""
    stack = [node]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            for k in _TYPE_KEYS:
                v = n.get(k)
                if isinstance(v, int):
                    n[k] = types[v] if v >= 0 else ""
            for k in ("id", "d", "hid"):
                v = n.get(k)
                if isinstance(v, int):
                    n[k] = (tu, v)
            stack.extend(v for v in n.values() if isinstance(v, (dict, list)))
        else:
            stack.extend(v for v in n if isinstance(v, (dict, list)))


class Facts:
    def __init__(self):
        self.fns = {}      # mangled id -> fn
        self.by_q = {}     # qualified name -> [fn]
        self.recs = {}
        self.enums = {}
        self.globals = {}
        self.tus = []
        self.diag = []

    def find(self, q, pred=None):
        return [f for f in self.by_q.get(q, ()) if pred is None or pred(f)]


def _load(exe):
    th = tree_hash()
    cache = os.path.join(BUILD, "facts-%s.pkl" % th)
    if os.path.exists(cache):
        try:
            with open(cache, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    work = os.path.join(BUILD, "facts-%s.d.%d" % (th, os.getpid()))
    os.makedirs(work, exist_ok=True)
    fx = Facts()
    tus = translation_units()
    outs = []
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        futs = []
        # big units first
        for i, f in enumerate(tus):
            out = os.path.join(work, "%d.json" % i)
            outs.append(out)
            futs.append(ex.submit(extract_one, exe, f, out))
        for fu in futs:
            f, rc, err = fu.result()
            if rc != 0:
                fx.diag.append((f, err[-2000:]))
    for i, f in enumerate(tus):
        out = outs[i]
        if not os.path.exists(out):
            raise AnalysisBroken("no facts for %s: %s" % (f, dict(fx.diag).get(f)))
        with open(out) as fh:
            d = json.load(fh)
        os.unlink(out)
        tu = i
        types = d["types"]
        fx.tus.append((os.path.relpath(f, REPO) if f.startswith(REPO) else f,
                       len(d["functions"]), d["errors"]))
        for fn in d["functions"]:
            key = fn["id"]
            if fn.get("internal"):
                key = key + "@" + fn["file"]
            if key in fx.fns:
                continue
            _resolve(fn, types, tu)
            fn["key"] = key
            fn["tu"] = tu
            fx.fns[key] = fn
            fx.by_q.setdefault(fn["q"], []).append(fn)
        for r in d["records"]:
            if r["n"] in fx.recs:
                continue
            _resolve(r, types, tu)
            for m in r["methods"]:
                m["p"] = [types[x] for x in m["p"]]
            fx.recs[r["n"]] = r
        for e in d["enums"]:
            fx.enums.setdefault(e["q"], e)
        for g in d["globals"]:
            if g["q"] in fx.globals:
                continue
            _resolve(g, types, tu)
            fx.globals[g["q"]] = g
    os.rmdir(work)
    try:
        tmp = cache + ".%d.tmp" % os.getpid()
        with open(tmp, "wb") as f:
            pickle.dump(fx, f, protocol=pickle.HIGHEST_PROTOCOL)
        os.replace(tmp, cache)
        # keep the cache small
        olds = sorted(glob.glob(os.path.join(BUILD, "facts-*.pkl")),
                      key=os.path.getmtime)[:-14]
        for o in olds:
            os.unlink(o)
    except OSError:
        pass
    return fx


_FACTS = None


def load():
    global _FACTS
    if _FACTS is None:
        sys.setrecursionlimit(20000)
        _FACTS = _load(build_tool())
    return _FACTS


if __name__ == "__main__":
    fx = load()
    print("functions", len(fx.fns), "records", len(fx.recs), "enums",
          len(fx.enums), "globals", len(fx.globals))
    for t in fx.tus:
        print(t)
    for d in fx.diag:
        print("DIAG", d[0], d[1][:600])
