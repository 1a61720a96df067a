from . import codecgen as G
from . import codecprops as P


def run(c):
    era = {}

    def gen():
        era["few"] = P.erasures(c, c.pick(6, 8), True)
        # all of the data of a systematic code, with any parities
        era["all"] = {k: [s for s in v if s.startswith("1" * k[0])]
                      for k, v in P.erasures(c, c.pick(6, 8), False, 20).items()}

    c.parallel(lambda: c.build([("codec", v) for v in P.VARS]), gen,
               lambda: c.model("MCCodec", P.mccodec(c), workers=2))
    vs = P.VARS
    want = lambda r, k: G.wanted(r, k, 0.5)     # noqa: E731
    gs = P.enumerated(c, era["few"], G.TYPES, vs, want,
                      per=c.pick(10, 100))
    sysk = {k: v for k, v in G.TYPES.items() if k in G.SYS}
    gs += P.enumerated(c, era["all"], sysk, vs, want, per=c.pick(10, 100))
    few = lambda r, co: r.choice([co.k - 1, co.k - 1,       # noqa: E731
                                  r.randint(0, co.k - 1)])
    gs += P.randoms(c, c.pick(250, 3000), vs, ndec=5, avail=few, wantp=0.5)
    # failures between successes
    some = lambda r, co: r.choice([co.k - 1, co.k])         # noqa: E731
    gs += P.randoms(c, c.pick(150, 2000), vs, ndec=6, avail=some, tag=10000)
    gs += P.randoms(c, c.pick(8, 60), vs, types=G.WIDE, maxn=10, limit=20,
                    avail=few, tag=20000)
    c.validate("codec", gs, "CodecTrace", P.cfg("fail"))
