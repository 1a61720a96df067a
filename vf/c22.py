"""Memory: what is allocated is given back."""
from . import (c05, c09, c10, c11, c12, c13, c14, c16, c17, c18, c20, c21)
from . import codecgen as G
from . import codecprops as P
from .core import Group

CFG = "INIT TInit\nNEXT TNext\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
MC = """CONSTANTS Objs = {"a", "b"} Ops = {"x", "y"} Most = 1 Length = %d
Runs = 3 Fault = "%s"
INIT Init
NEXT Next
INVARIANTS Owned NothingLeft NotBlamed
CHECK_DEADLOCK FALSE
"""
VARS = ["OFF", "AVX", "SSE"]
# what can be done again in its place, leaving the script's objects as they
# are
AGAIN = {
    "codec": lambda a: a[0] in ("enc", "dec", "decs"),
    "capi": lambda a: a[0] == "dec",
    "math": lambda a: a[0] == "arith" or len(a) > 1
    and a[0] == "F" and a[1] not in ("fftnew", "poly"),
    "vec": lambda a: a[0] == "dump" or len(a) > 1 and a[1] == "pack",
}


class Collect:
    """Stands for a check, of which only the scripts are of interest."""

    def __init__(self, c):
        self._c = c
        self.tier = "quick"
        self.got = []
        self.assumptions = []
        self.cov = {}
        self.rng = c.rng

    def __getattr__(self, k):
        return getattr(self._c, k)

    def pick(self, quick, thorough):
        return quick

    def build(self, *a):
        pass

    def model(self, *a, **k):
        pass

    refuted = model

    def works(self, *a):
        return False

    def generate(self, module, cfg, extra=(), **k):
        extra = ["num=%d" % min(60, int(x[4:])) if x.startswith("num=")
                 else x for x in extra]
        return self._c.generate(module, cfg, extra=extra, **k)

    def validate(self, harness, groups, *a, **k):
        self.got += [(harness, g) for g in groups]


def convert(h, g, v):
    L = ["mem 3"]
    for ln in g.lines:
        if ln.startswith("#"):
            continue
        L.append("again " + ln if AGAIN[h](ln.split()) else ln)
    return Group("mem-" + g.name, L, [v], 3 * g.cost)


def run(c):
    r = c.rng
    take = {h: [] for h in AGAIN}

    def scripts():
        for n, mod in enumerate((c05, c09, c10, c11, c12, c13, c14, c16, c17,
                                 c18, c20, c21)):
            p = Collect(c)
            mod.run(p)
            got = [x for x in p.got if not x[1].lines[0].startswith("thread")
                   and x[1].cost <= 12]
            # some of each sort
            sorts = {}
            for h, g in got:
                sorts.setdefault((h, g.name.split("-")[0]), []).append(g)
            most = c.pick(28, 400)
            for (h, _), gs in sorted(sorts.items()):
                k = max(4, most // len(sorts))
                take[h] += r.sample(gs, min(k, len(gs)))
        take["codec"] += P.randoms(c, c.pick(60, 1200), VARS, ndec=3)
        take["codec"] += P.randoms(c, c.pick(12, 60), VARS, types=G.WIDE,
                                   maxn=8, limit=12)
        take["codec"] += P.steps(c, c.pick(24, 300), VARS, 12, 60)

    def models():
        c.model("MCMemory", MC % (c.pick(4, 5), "none"),
                timeout=c.pick(300, 1500))
        for f in ("leak", "end", "theirs"):
            c.refuted("MCMemory", MC % (3, f), "MCMemory(%s)" % f)

    c.parallel(lambda: c.build([(h, v) for h in AGAIN for v in VARS]),
               scripts, models)
    jobs = []
    for h, gs in take.items():
        ms = [convert(h, g, VARS[i % 3]) for i, g in enumerate(gs)]
        jobs.append((h, ms))
    for h, ms in jobs:
        c.validate(h, ms, "MemoryTrace", CFG, c.pick(4, 8))
    c.assumptions += [
        "blocks are counted, not bytes", "what the process keeps the first "
        "time a history is gone through, or an operation done on an object, "
        "is not held against it"]
