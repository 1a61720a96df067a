from . import codecgen as G
from . import codecprops as P

TITLE = "any n_data fragments give back the data"


def run(c):
    era = []

    def build():
        c.build([("codec", v) for v in P.VARS])

    def gen():
        era.append(P.erasures(c, c.pick(5, 7), False, 1))

    c.parallel(build, gen, lambda: P.models(c))
    vs = P.VARS
    gs = P.enumerated(c, era[0], G.TYPES, vs, per=c.pick(12, 60))
    gs += P.randoms(c, c.pick(400, 4000), vs, ndec=5)
    gs += P.randoms(c, c.pick(12, 60), vs, types=G.WIDE, maxn=12, limit=20)
    gs += P.randoms(c, c.pick(8, 24), vs, types=G.WIDEST, maxn=8, limit=12,
                    tag=20000)
    gs += P.large(c, vs) + P.huge(c, vs)
    gs += P.longs(c, vs, c.pick(11, 66))
    gs += P.steps(c, c.pick(40, 600), vs)
    c.validate("codec", gs, "CodecTrace", P.cfg("rec"))
