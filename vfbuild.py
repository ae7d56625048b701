"""Builds the library sources of /repo together with the monitoring harness.

Objects are cached in /verif/build/obj under a key made of the compiler, the
flags, and the contents of the source and of every header the compiler reported
for it, so every check is always built from the current working tree of /repo
and unchanged files are not recompiled.
"""
import concurrent.futures
import glob
import hashlib
import os
import shlex
import subprocess
import tempfile
import threading

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OBJ = os.path.join(BUILD, "obj")
BIN = os.path.join(BUILD, "bin")
HARNESS = os.path.join(VERIF, "harness")
JOBS = 8

COMMON = ["-std=gnu++14", "-I" + REPO, "-I" + HARNESS, "-DRUY_HAVE_CPUINFO", "-Wno-psabi", "-pthread",
          "-ffp-contract=off"]
# The product itself is built without -ffp-contract; gcc's default for GNU
# modes only matters where FMA is enabled (the *_avx2_fma / *_avx512 files).
PRODUCT = [f for f in COMMON if f != "-ffp-contract=off"]

VARIANTS = {
    # name: (compiler, flags)
    "plain": ("g++", ["-O2", "-g1"]),
    "ndebug": ("g++", ["-O2", "-g1", "-DNDEBUG"]),
    "asan": ("clang++", ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                         "-fno-omit-frame-pointer", "-DVF_SANITIZED"]),
    "tsan": ("clang++", ["-O1", "-g1", "-fsanitize=thread", "-DVF_SANITIZED"]),
    "tsan-ndebug": ("clang++", ["-O1", "-g1", "-fsanitize=thread", "-DVF_SANITIZED", "-DNDEBUG"]),
    "prof": ("g++", ["-O2", "-g1", "-DRUY_PROFILER"]),
    "prof-asan": ("clang++", ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                              "-fno-omit-frame-pointer", "-DVF_SANITIZED", "-DRUY_PROFILER"]),
    "trace": ("g++", ["-O1", "-g1", "-DRUY_TRACE"]),
    "trace-asan": ("clang++", ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                               "-fno-omit-frame-pointer", "-DVF_SANITIZED", "-DRUY_TRACE"]),
    "trace-tsan": ("clang++", ["-O1", "-g1", "-fsanitize=thread", "-DVF_SANITIZED", "-DRUY_TRACE"]),
    "prof-tsan": ("clang++", ["-O1", "-g1", "-fsanitize=thread", "-DVF_SANITIZED", "-DRUY_PROFILER"]),
}


def variant(name):
    if name in VARIANTS:
        return VARIANTS[name]
    if name.startswith("opt-"):  # opt-<hex>[-ndebug][-prof]: RUY_OPT_SET
        parts = name.split("-")
        flags = ["-O2", "-g1", "-DRUY_OPT_SET=0x" + parts[1]]
        if "ndebug" in parts:
            flags.append("-DNDEBUG")
        if "prof" in parts:
            flags.append("-DRUY_PROFILER")
        return ("g++", flags)
    raise ValueError(name)


COPTS = {
    "_avx512.cc": ["-mavx512f", "-mavx512vl", "-mavx512cd", "-mavx512bw", "-mavx512dq"],
    "_avx2_fma.cc": ["-mavx2", "-mfma"],
    "_avx.cc": ["-mavx"],
}

_lock = threading.Lock()
_hash_cache = {}


class BuildError(Exception):
    pass


def file_hash(path):
    with _lock:
        h = _hash_cache.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        with _lock:
            _hash_cache[path] = h
    return h


def lib_sources():
    out = []
    for f in sorted(glob.glob(REPO + "/ruy/*.cc")):
        b = os.path.basename(f)
        if b.endswith("_test.cc") or b.startswith("test_") or b == "benchmark.cc":
            continue
        out.append(f)
    for f in sorted(glob.glob(REPO + "/ruy/profiler/*.cc")):
        b = os.path.basename(f)
        if b in ("instrumentation.cc", "profiler.cc", "treeview.cc"):
            out.append(f)
    return out


def _tag(s):
    return hashlib.sha256(s.encode()).hexdigest()[:20]


def compile_one(src, var, extra=()):
    cc, flags = variant(var)
    if src.startswith(REPO + "/"):
        args = PRODUCT + flags
        for suffix, copts in COPTS.items():
            if src.endswith(suffix):
                args = args + copts
                break
    else:
        args = COMMON + flags + list(extra)
    ident = "\0".join([cc, src] + args)
    man = os.path.join(OBJ, _tag(ident) + ".deps")

    def objpath(deps):
        h = hashlib.sha256(ident.encode())
        for d in deps:
            h.update(d.encode())
            h.update(file_hash(d).encode())
        return os.path.join(OBJ, h.hexdigest()[:32] + ".o")

    if os.path.exists(man):
        deps = open(man).read().split("\n")
        o = objpath(deps)
        if os.path.exists(o):
            return o
    fd, tmp = tempfile.mkstemp(suffix=".o", dir=OBJ)
    os.close(fd)
    dep = tmp + ".d"
    cmd = [cc] + args + ["-MMD", "-MF", dep, "-c", src, "-o", tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        for f in (tmp, dep):
            if os.path.exists(f):
                os.unlink(f)
        raise BuildError("compile failed: %s\n%s" % (" ".join(map(shlex.quote, cmd)), r.stdout[-4000:]))
    text = open(dep).read().replace("\\\n", " ")
    os.unlink(dep)
    deps = [d for d in text.split(":", 1)[1].split() if d.startswith(REPO) or d.startswith(VERIF)]
    deps = sorted(set(os.path.normpath(d) for d in deps))
    o = objpath(deps)
    os.replace(tmp, o)
    with open(man + ".tmp%d%d" % (os.getpid(), threading.get_ident()), "w") as f:
        f.write("\n".join(deps))
        name = f.name
    os.replace(name, man)
    return o


def build(targets):
    """targets: list of dicts {name, variant, sources, extra, wrap, libs, lib}.
    Returns {name: path}."""
    os.makedirs(OBJ, exist_ok=True)
    os.makedirs(BIN, exist_ok=True)
    units = {}
    for t in targets:
        us = []
        for s in t["sources"]:
            if isinstance(s, str):
                s = (s, ())
            us.append((os.path.join(HARNESS, s[0]), t["variant"], tuple(t.get("extra", ())) + tuple(s[1])))
        if t.get("lib", True):
            for s in lib_sources():
                us.append((s, t["variant"], ()))
        t["_units"] = us
        for u in us:
            units[u] = None
    errs = []
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_one, *u): u for u in units}
        for f in concurrent.futures.as_completed(futs):
            try:
                units[futs[f]] = f.result()
            except BuildError as e:
                errs.append(str(e))
    if errs:
        raise BuildError("\n".join(errs[:3]))

    def link(t):
        objs = [units[u] for u in t["_units"]]
        cc, flags = variant(t["variant"])
        ldflags = [f for f in flags if f.startswith("-fsanitize")] + ["-pthread"]
        for w in t.get("wrap", ()):
            ldflags.append("-Wl,--wrap=" + w)
        ldflags += list(t.get("ldflags", ()))
        key = hashlib.sha256("\0".join([cc] + objs + ldflags).encode()).hexdigest()[:24]
        out = os.path.join(BIN, t["name"] + "." + key)
        if os.path.exists(out):
            os.utime(out)
            return out
        for old in glob.glob(os.path.join(BIN, t["name"] + ".*")):
            try:
                os.unlink(old)
            except OSError:
                pass
        tmp = out + ".tmp%d" % os.getpid()
        cmd = [cc] + objs + ldflags + ["-lcpuinfo", "-ldl", "-o", tmp]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("link failed: %s\n%s" % (t["name"], r.stdout[-4000:]))
        os.replace(tmp, out)
        return out

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        paths = list(ex.map(link, targets))
    return {t["name"]: p for t, p in zip(targets, paths)}


def prune(max_bytes=3 << 30):
    """Drop the oldest cached objects when the cache has grown too large."""
    files = []
    for f in glob.glob(OBJ + "/*.o"):
        try:
            st = os.stat(f)
            files.append((st.st_mtime, st.st_size, f))
        except OSError:
            pass
    total = sum(s for _, s, _ in files)
    for _, s, f in sorted(files):
        if total <= max_bytes:
            break
        os.unlink(f)
        total -= s
