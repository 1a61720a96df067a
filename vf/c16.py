from . import capiprops as F
from . import codecgen as G
from . import codecprops as P

THREADS = """CONSTANTS Threads = {%s} Words = %d Vals = {1, 2} Ops = 2
Place <- %s
INIT Init
NEXT Next
INVARIANT Alone
CHECK_DEADLOCK FALSE
"""
TV = ["TSAN", "TSANOFF"]


def run(c):
    h, f = [], []

    def gen():
        h.extend(P.histories(c, c.pick(330, 3000), 16))
        h.extend(P.histories(c, c.pick(20, 200), 60))
        f.extend(F.histories(c, c.pick(40, 300), 14, "Mid"))

    def models():
        c.model("MCCodec", P.mccodec(c), workers=2)
        c.model("MCThreads", THREADS % (c.pick("1, 2", "1, 2, 3"), 2, "Own"))
        c.refuted("MCThreads", THREADS % ("1, 2", 2, "One"),
                  "MCThreads(shared memory)")

    c.parallel(lambda: c.build(
        [("codec", v) for v in P.VARS + TV]
        + [("capi", v) for v in ["OFF"] + TV]), gen, models)
    tv = TV
    if not all(c.works(x, v) for x in ("codec", "capi") for v in TV):
        tv = []         # the race detector cannot run on this machine
        c.assumptions.append("races are seen by their effects only")
    gs = P.concretize(c, h, P.VARS)
    gs += P.threads(c, gs, c.pick(60, 500), tv + P.VARS)
    gs += P.concretize(c, h[:c.pick(10, 60)], P.VARS, types=G.WIDE,
                       maxn=7, limit=12, tag="w", kinds=sorted(G.WIDE))
    gs += P.steps(c, c.pick(60, 600), P.VARS, 12, 120, ndec=1,
                  kinds=["fntn", "fnts", "nf4", "gpf", "g2f", "g2a"])
    fs = P.threads(c, [g for g in F.concretize(c, f, ["OFF"])
                       if g.cost < 5], c.pick(15, 200), tv + ["OFF"])
    c.parallel(
        lambda: c.validate("codec", gs, "CodecTrace",
                           P.cfg("fun", "rec", "fail")),
        lambda: c.validate("capi", fs, "FragTrace",
                           F.cfg("rec", "fail", "mem"), shards=2))
