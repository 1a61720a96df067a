from . import codecgen as G
from . import codecprops as P
from . import c09, c10
from . import mathgen as M
from .core import Group


def run(c):
    h = []

    def gen():
        h.extend(P.histories(c, c.pick(60, 600), 10))

    c.parallel(lambda: c.build([(x, v) for v in P.VARS
                                for x in ("codec", "math")]), gen,
               lambda: c.model("MCCodec", P.mccodec(c), workers=2))
    v = [P.VARS]
    simd = {k: t for k, t in G.TYPES.items() if k in G.SIMD}
    gs = P.randoms(c, c.pick(180, 2500), v, types=simd, maxn=20, ndec=3,
                   special=6)
    gs += P.randoms(c, c.pick(50, 600), v, maxn=16, ndec=2, tag=10000)
    gs += P.randoms(c, c.pick(6, 30), v, types=simd, maxn=64, ndec=2,
                    tag=20000)
    gs += P.concretize(c, h, v, kinds=["fnts", "fntn", "nf4"], fresh=False,
                       merged=True)
    gs += P.large(c, v, lambda i: P.LARGE[i][0] in G.SIMD)
    gs += P.longs(c, v, c.pick(6, 40), False, 0, 1, ["fntn", "fnts", "nf4"])
    c.validate("codec", gs, "CodecTrace", P.cfg("fun", "rec", "fail",
                                                "len"))
    # the vectorized operations and transforms by themselves
    r = c.rng
    gs = []
    for f in [x for x in c09.FERMAT if x.bits < 64] + M.LANES:
        for i in range(c.pick(3, 30)):
            gs.append(Group("bufs-%s-%d" % (f, i),
                            c10.buffers(c, f, c.pick(14, 40)), M.SIMD, 2))
        for i in range(c.pick(5, 40)):
            n = 1 << r.randint(1, 6)
            pkt = r.choice([4, 8, 16, 17, 24, 33])
            gs.append(Group("radix2-%s-%d-%d-%d" % (f, n, pkt, i),
                            [f.line("F")] + c09.radix2(c, f, n, pkt, 4),
                            M.SIMD, 1 + n * pkt / 300))
    c.validate("math", gs, "MathTrace", M.CFG, 8)
