from . import codecprops as P


def run(c):
    h = []

    def gen():
        h.extend(P.histories(c, c.pick(420, 4000), 14))

    c.parallel(lambda: c.build([("codec", v) for v in P.VARS]), gen,
               lambda: c.model("MCCodec", P.mccodec(c), workers=2))
    gs = P.concretize(c, h, P.VARS, stats=True, fresh=False)
    c.validate("codec", gs, "CodecTrace", P.cfg("stats"))
