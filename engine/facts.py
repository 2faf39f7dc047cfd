"""Builds the fact extractor, runs it on every translation unit of the
repository's current tree and merges the result."""
import hashlib, json, os, pickle, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("C3_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """The analysis itself is not usable (vanished anchor, zero instances...)."""


def sh(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


def build_extractor():
    src = os.path.join(VERIF, "engine", "extract.cpp")
    out = os.path.join(CACHE, "c3facts-" + sh(src)[:16])
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    libllvm = None
    for n in sorted(os.listdir(LLVM + "/lib")):
        if re.match(r"libLLVM.*\.so", n):
            libllvm = os.path.join(LLVM, "lib", n)
            break
    tmp = out + ".%d" % os.getpid()
    cmd = ["clang++-18", "-O1", "-fno-rtti", "-std=c++17", "-w", "-I" + LLVM + "/include", src, "-o", tmp,
           LLVM + "/lib/libclang-cpp.so.18.1", libllvm]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("extractor does not build:\n" + r.stderr[-3000:])
    os.replace(tmp, out)
    return out


def sources():
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    listed = set(re.findall(r"\b((?:src|wrapper)/[\w/.-]+\.(?:c|cpp))\b", cm))
    out = []
    for s in sorted(listed):
        if s.endswith("hostinfo.c") or "/tilde_codegen" in s or "/tb_" in s:
            continue
        if os.path.exists(os.path.join(REPO, s)):
            out.append(s)
    return out


def flags(src, gen):
    if src.endswith(".cpp"):
        return ["-I" + LLVM + "/include", "-I" + REPO + "/wrapper/include", "-fno-exceptions", "-std=gnu++17",
                "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-w"]
    return ["-DCURL_FOUND=1", "-DLLVM_AVAILABLE=1", "-DTB_AVAILABLE=0", "-I" + LLVM + "/include", "-I" + REPO + "/src",
            "-I" + gen, "-I" + REPO + "/wrapper/include", "-I" + REPO + "/dependencies/miniz", "-O1", "-fno-exceptions",
            "-std=gnu11", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-pthread", "-w"]


def resource_dir():
    return ["-resource-dir", LLVM + "/lib/clang/18"]


class Facts:
    pass


ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}


def groot(e):
    """global at the root of an lvalue"""
    while isinstance(e, list):
        if e[0] == "glob":
            return e[3]
        if e[0] in ("mem", "idx"):
            if e[0] == "mem" and e[5]:
                return None
            e = e[3]
        elif e[0] in ("icast", "cast"):
            e = e[4]
        else:
            return None
    return None


def written_globals(F):
    """globals that may change after initialisation (assigned, addressed, or decayed to a pointer outside an index)"""
    out = set()

    def walk(e, parent):
        if not isinstance(e, list) or not e:
            return
        k = e[0]
        if k == "bin" and e[3] in ASSIGN:
            r = groot(e[4])
            if r:
                out.add(r)
        elif k == "un" and e[3] in ("++", "--", "p++", "p--", "&"):
            r = groot(e[4])
            if r:
                out.add(r)
        elif k == "icast" and e[3] == "ArrayToPointerDecay" and parent != "idx":
            r = groot(e[4])
            if r:
                out.add(r)
        for x in e:
            if isinstance(x, list):
                walk(x, k if isinstance(k, str) else parent)
    for f in F.fns.values():
        walk(f["body"], None)
    for g in F.gvars.values():
        if g["init"]:
            walk(g["init"], None)
    return out


def load():
    tool = build_extractor()
    gen = os.path.join(CACHE, "gen")
    os.makedirs(gen, exist_ok=True)
    gh = os.path.join(gen, "git_hash.h")
    if not os.path.exists(gh):
        with open(gh, "w") as f:
            f.write('#pragma once\n#define GIT_HASH "analysis"\n')
    srcs = sources()
    if len(srcs) < 80:
        raise AnalysisBroken("only %d translation units found in CMakeLists.txt" % len(srcs))
    hh = hashlib.sha256()
    hh.update(os.path.basename(tool).encode())
    hh.update(REPO.encode())
    for base in ("src", "wrapper", "dependencies"):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, base))):
            for f in sorted(fs):
                if f.endswith((".h", ".inc", ".def", ".hpp")):
                    p = os.path.join(d, f)
                    hh.update(p.encode())
                    hh.update(open(p, "rb").read())
    common = hh.hexdigest()
    fdir = os.path.join(CACHE, "facts")
    os.makedirs(fdir, exist_ok=True)

    def key(s):
        return hashlib.sha256((common + s + sh(os.path.join(REPO, s)) + " ".join(flags(s, gen))).encode()).hexdigest()[:24]
    keys = {s: key(s) for s in srcs}
    allk = hashlib.sha256("".join(s + keys[s] for s in srcs).encode() + sh(os.path.abspath(__file__)).encode()).hexdigest()[:24]
    pk = os.path.join(CACHE, "merged-%s.pickle" % allk)
    if os.path.exists(pk):
        import gc
        gc.disable()
        with open(pk, "rb") as f:
            r = pickle.load(f)
        gc.enable()
        return r

    def run(s):
        out = os.path.join(fdir, keys[s] + ".jsonl")
        if os.path.exists(out):
            return None
        tmp = out + ".%d.tmp" % os.getpid()
        cmd = [tool, REPO, tmp, os.path.join(REPO, s), "--"] + flags(s, gen) + resource_dir()
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=gen)
        if r.returncode:
            return "%s: %s" % (s, r.stderr[-2000:])
        os.replace(tmp, out)
        return None
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(run, sorted(srcs, key=lambda s: -os.path.getsize(os.path.join(REPO, s)))) if e]
    if errs:
        raise AnalysisBroken("translation units do not parse:\n" + "\n".join(errs))
    F = Facts()
    F.fns = {}       # key -> fn ; key = name or name@file when several
    F.byname = {}
    F.protos = {}
    F.enums = {}
    F.recs = {}
    F.gvars = {}
    F.types = {}
    F.units = srcs
    F.enumconst = {}
    for s in srcs:
        types = None
        pend = []
        seen_end = False
        with open(os.path.join(fdir, keys[s] + ".jsonl")) as f:
            for line in f:
                o = json.loads(line)
                k = o["k"]
                if k == "fn":
                    pend.append(o)
                elif k == "types":
                    types = o["t"]
                elif k == "end":
                    seen_end = True
                    if o["errors"]:
                        raise AnalysisBroken("parse errors in " + s)
                elif k == "proto":
                    p = F.protos.setdefault(o["name"], o)
                    if o["nodiscard"]:
                        p["nodiscard"] = 1
                    if o["fmt"][0]:
                        p["fmt"] = o["fmt"]
                elif k == "enum":
                    F.enums.setdefault(o["name"], o)
                    for n, v in o["vals"]:
                        F.enumconst[n] = v
                elif k == "rec":
                    F.recs.setdefault(o["name"], o)
                elif k == "gvar":
                    pend.append(o)
        if not seen_end:
            raise AnalysisBroken("truncated facts for " + s)
        # intern type ids to a global table
        tmap = [sys.intern(t) for t in types]
        for o in pend:
            o["tu"] = s
            o["types"] = tmap
            if o["k"] == "fn":
                kk = (o["name"], o["file"], o["line"])
                if kk in F.fns:
                    continue
                F.fns[kk] = o
                F.byname.setdefault(o["name"], []).append(o)
            else:
                cur = F.gvars.get(o["name"])
                if cur is None or (cur["extern"] and not o["extern"]) or (cur["init"] is None and o["init"] is not None and not cur["static"] and not o["static"]):
                    F.gvars[o["name"]] = o
                elif not o["extern"] and (cur["file"], cur["line"]) != (o["file"], o["line"]):
                    F.gvars[o["name"] + "@" + o["file"]] = o
    F.written = written_globals(F)
    for f in os.listdir(CACHE):
        if f.startswith("merged-"):
            p = os.path.join(CACHE, f)
            if time.time() - os.path.getmtime(p) > 3600:
                os.unlink(p)
    tmp = pk + ".%d" % os.getpid()
    with open(tmp, "wb") as f:
        pickle.dump(F, f, protocol=4)
    os.replace(tmp, pk)
    return F


if __name__ == "__main__":
    t = time.time()
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import facts
    F = facts.load()
    print("units", len(F.units), "fns", len(F.fns), "enums", len(F.enums), "recs", len(F.recs), "gvars", len(F.gvars), "%.1fs" % (time.time() - t))
