"""Build of the harnesses against /repo's current sources.

Every object is named after the hash of everything it is made from, so a
stale object is never used and unchanged ones are not rebuilt."""
import glob
import hashlib
import os
import shutil
import subprocess
import threading
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
HARNESS = os.path.join(ROOT, "harness")
OUT = os.path.join(ROOT, "build")

VARIANTS = {
    "OFF": [],
    "SSE": ["-DQUADIRON_USE_SIMD", "-msse4.1"],
    "AVX": ["-DQUADIRON_USE_SIMD", "-mavx2"],
    "ASAN": ["-fsanitize=address,undefined", "-fno-sanitize-recover=address",
             "-g1", "-fno-omit-frame-pointer"],
    "ASANAVX": ["-fsanitize=address", "-g1", "-fno-omit-frame-pointer",
                "-DQUADIRON_USE_SIMD", "-mavx2"],
    "TSAN": ["-fsanitize=thread", "-g1", "-DQUADIRON_USE_SIMD", "-mavx2"],
    "TSANOFF": ["-fsanitize=thread", "-g1"],
}
HARNESSES = {
    "capi": ["capi_main", "common"],
    "codec": ["codec_main", "codec_u16", "codec_u32", "codec_u32_gf2",
              "codec_u64", "codec_u128", "common"],
    "math": ["math_main", "math_u16", "math_u32", "math_u64", "math_u128",
             "math_arith", "common"],
    "vec": ["vec_main", "vec_props", "vec_buffers", "vec_vectors", "vec_dumps",
            "common"],
}


class BuildError(Exception):
    pass


def cxx():
    for c in ("g++-9", "/usr/bin/g++-9", "g++"):
        p = shutil.which(c)
        if p:
            return p
    raise BuildError("no compiler")


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


_src_cache = {}


def _tree(d):
    if d not in _src_cache:
        h = hashlib.sha256()
        for f in sorted(glob.glob(d + "/**/*", recursive=True)):
            if f.endswith((".h", ".cpp", ".c", ".hpp")) and os.path.isfile(f):
                h.update(os.path.relpath(f, d).encode())
                h.update(open(f, "rb").read())
        _src_cache[d] = h.hexdigest()
    return _src_cache[d]


def _prune():
    try:
        ds = [os.path.join(OUT, d) for d in os.listdir(OUT)]
    except OSError:
        return
    ds = sorted((d for d in ds if os.path.isdir(d)), key=os.path.getmtime)
    for d in ds[:-10]:
        shutil.rmtree(d, ignore_errors=True)


_lock = threading.Lock()


def build(targets, jobs=8):
    """targets: list of (harness, variant); returns {target: binary}"""
    src = os.path.join(REPO, "src")
    comp = cxx()
    tree = _tree(src)
    htree = _tree(HARNESS)
    top = os.path.join(OUT, _hash(tree, htree, comp))
    gen = os.path.join(top, "gen")
    os.makedirs(gen, exist_ok=True)
    os.utime(top)
    _prune()
    with open(os.path.join(gen, "build_info.h"), "w") as f:
        f.write('#pragma once\n#define PACKAGE "quadiron"\n'
                '#define VERSION "0"\n')
    libs = sorted(glob.glob(src + "/*.cpp"))
    tasks = {}
    links = []
    for harness, variant in targets:
        objs = []
        fl = VARIANTS[variant]
        opt = ["-O1"] if "SAN" in variant else ["-O2"]
        for s in libs + [os.path.join(HARNESS, t + ".cpp")
                         for t in HARNESSES[harness]]:
            o = os.path.join(top, variant + "-" + os.path.basename(s)[:-4]
                             + ".o")
            cmd = [comp, "-std=c++14", "-fPIC", "-DNDEBUG", "-w"] + opt + fl + [
                "-I" + src, "-I" + gen, "-I" + HARNESS, "-c", s, "-o", o]
            tasks[o] = cmd
            objs.append(o)
        links.append((harness, variant, objs))
    def size(c):        # the longest first
        try:
            return -(os.path.getsize(c[-3]) + (10 ** 7 if "codec_" in c[-3] or "math" in c[-3] else 0))
        except OSError:
            return 0

    def run(item):
        o, cmd = item
        if os.path.exists(o):
            return
        tmp = o + ".tmp%d" % os.getpid()
        cmd = cmd[:-1] + [tmp]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise BuildError(" ".join(cmd) + "\n" + p.stderr[-4000:])
        os.rename(tmp, o)

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(run, sorted(tasks.items(), key=lambda t: size(t[1]))))
    res = {}

    def link(x):
        harness, variant, objs = x
        b = os.path.join(top, harness + "-" + variant)
        if not os.path.exists(b):
            tmp = b + ".tmp%d" % os.getpid()
            fl = [f for f in VARIANTS[variant] if f.startswith("-f")]
            p = subprocess.run([comp] + fl + objs + ["-o", tmp, "-lpthread"],
                               capture_output=True, text=True)
            if p.returncode:
                raise BuildError("link " + b + "\n" + p.stderr[-4000:])
            os.rename(tmp, b)
        res[(harness, variant)] = b

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(link, links))
    return res
