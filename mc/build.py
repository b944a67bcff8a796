#!/usr/bin/env python3
"""Content-addressed, parallel build of /repo's library and of the explorers.

Objects are keyed by the flags and the *contents* of the source file and of
every header it includes, so a change in /repo's working tree is always seen
and nothing depends on time stamps.
"""
import hashlib, json, os, re, subprocess, sys, concurrent.futures as cf, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ADOLC_REPO", "/repo")
ADOLC = os.path.join(REPO, "ADOL-C")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
DEFS = ["-DADOLC_ADOUBLE_STDCZERO=1", "-DADOLC_BITWORD_BITS=32", "-DADOLC_PATCHLEVEL=3",
        "-DADOLC_SHARED", "-DADOLC_SPARSE=1", "-DADOLC_SUBVERSION=7", "-DADOLC_VERSION=2"]
FLAVOURS = {
    # library code and harness are compiled with the same sanitizer
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    "plain": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}
BASE = ["-std=c++20", "-fPIC", "-w"]
_hash = {}


def fhash(p):
    h = _hash.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash[p] = h
    return h


def gen_include():
    inc = os.path.join(BUILD, "include")
    out = os.path.join(inc, "adolc", "internal", "adolc_settings.h")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    txt = open(os.path.join(ADOLC, "include/adolc/internal/adolc_settings.h.in")).read()
    for k, v in {"@ADVBRANCH@": "", "@ADTL_REFCNT@": "", "@ADOLC_SPARSE@": "#define ADOLC_SPARSE 1",
                 "@USE_BOOST_POOL@": "#define USE_BOOST_POOL 1"}.items():
        txt = txt.replace(k, v)
    if not os.path.exists(out) or open(out).read() != txt:
        with open(out + ".%d" % os.getpid(), "w") as f:
            f.write(txt)
        os.replace(out + ".%d" % os.getpid(), out)
    return inc


def overlay(edits):
    """Copies of repository headers with a user-settable constant changed: {header: (regex, replacement)}."""
    txt = {}
    for h, (rx, rep) in edits.items():
        txt[h] = re.sub(rx, rep, open(os.path.join(ADOLC, "include", h)).read(), flags=re.M)
    k = hashlib.sha256(json.dumps(txt, sort_keys=True).encode()).hexdigest()[:16]
    inc = os.path.join(BUILD, "overlay-" + k)
    for h, t in txt.items():
        out = os.path.join(inc, h)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if not os.path.exists(out):
            with open(out + ".%d" % os.getpid(), "w") as f:
                f.write(t)
            os.replace(out + ".%d" % os.getpid(), out)
    return inc


def lib_sources():
    """The .cpp files the library's CMake lists name."""
    res = []
    src = os.path.join(ADOLC, "src")
    for d, _, files in sorted(os.walk(src)):
        if "CMakeLists.txt" in files:
            txt = open(os.path.join(d, "CMakeLists.txt")).read()
            txt = re.sub(r"#.*", "", txt)
            for m in re.findall(r"[\w./${}-]+\.cpp", txt):
                p = os.path.normpath(os.path.join(d, os.path.basename(m) if "$" in m else m))
                if os.path.exists(p) and p not in res:
                    res.append(p)
    return res


def cif_sources():
    d = os.path.join(ADOLC, "c_interface")
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")]


def compile_one(src, flags, log=None):
    cache = os.path.join(BUILD, "obj")
    os.makedirs(cache, exist_ok=True)
    k1 = hashlib.sha256(("\0".join(flags) + "\0" + src).encode()).hexdigest()[:24]
    depf = os.path.join(cache, k1 + ".deps")

    def key(deps):
        h = hashlib.sha256(k1.encode())
        for d in deps:
            h.update(d.encode() + fhash(d).encode())
        return h.hexdigest()[:32]
    try:
        deps = json.load(open(depf))
        obj = os.path.join(cache, key(deps) + ".o")
        if os.path.exists(obj):
            return obj, None
    except (OSError, ValueError):
        pass
    tmp = os.path.join(cache, "%s.%d" % (k1, os.getpid()))
    cmd = ["g++"] + flags + ["-MD", "-MF", tmp + ".d", "-o", tmp + ".o", "-c", src]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return None, "%s\n%s" % (" ".join(cmd), r.stderr[-6000:])
    txt = open(tmp + ".d").read().replace("\\\n", " ")
    deps = sorted(set(d for d in txt.split(":", 1)[1].split()
                      if os.path.abspath(d).startswith((REPO + "/", VERIF + "/"))))
    obj = os.path.join(cache, key(deps) + ".o")
    os.replace(tmp + ".o", obj)
    os.unlink(tmp + ".d")
    with open(tmp + ".j", "w") as f:
        json.dump(deps, f)
    os.replace(tmp + ".j", depf)
    return obj, None


def build(harness, flavour="asan", cif=False, extra_flags=(), libs=(), harness_flags=None, edits=None):
    """Returns the path of the linked explorer. harness: list of .cpp files."""
    inc = gen_include()
    over = ["-I" + overlay(edits)] if edits else []
    common = BASE + FLAVOURS[flavour] + DEFS + over + ["-I" + ADOLC + "/include", "-I" + inc, "-I" + ADOLC + "/src"]
    lib = common + ["-Dadolc_EXPORTS"]
    jobs = [(s, lib) for s in lib_sources()]
    if cif:
        jobs += [(s, common + ["-I" + ADOLC + "/c_interface"]) for s in cif_sources()]
    hf = common + ["-I" + VERIF + "/mc", "-I" + ADOLC + "/c_interface"] + list(extra_flags)
    jobs = [(h, hf + (harness_flags or [])) for h in harness] + jobs
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count()) as ex:
        res = list(ex.map(lambda j: compile_one(*j), jobs))
    errs = [e for _, e in res if e]
    if errs:
        raise SystemExit("BUILD FAILED\n" + "\n".join(errs[:3]))
    objs = [o for o, _ in res]
    k = hashlib.sha256("\0".join(objs + list(libs) + [flavour]).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "bin", os.path.splitext(os.path.basename(harness[0]))[0] + "-" + k)
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d" % os.getpid()
        san = [f for f in FLAVOURS[flavour] if f.startswith("-fsanitize")]
        cmd = ["g++"] + san + ["-o", tmp] + objs + list(libs) + ["-l:libColPack.so.0", "-lpthread", "-ldl"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise SystemExit("LINK FAILED\n" + r.stderr[-4000:])
        os.replace(tmp, exe)
    return exe


def prune(limit_mb=3000):
    """Drops the oldest cached files when the cache grows too large."""
    files = []
    for sub in ("obj", "bin"):
        d = os.path.join(BUILD, sub)
        if os.path.isdir(d):
            for f in os.listdir(d):
                p = os.path.join(d, f)
                try:
                    st = os.stat(p)
                    files.append((st.st_mtime, st.st_size, p))
                except OSError:
                    pass
    total = sum(s for _, s, _ in files)
    for t, s, p in sorted(files):
        if total < limit_mb * 1e6:
            break
        try:
            os.unlink(p)
            total -= s
        except OSError:
            pass
