from . import codecgen as G
from . import codecprops as P
from .core import Group

MARKED = ["fnts", "fntn", "nf4", "gpf"]


def groups(c, count, variants):
    r = c.rng
    gs = []
    types = {k: G.TYPES[k] for k in MARKED}
    for i in range(count):
        kind = MARKED[i % 4]
        co = G.rcodec(r, kind, 14, types,
                      r.choice([1, 2, 3, 5, 8, 16, 17, 31, 32, 33, 48, 64]))
        nw = G.words(r, co.pkt, 150)
        if r.random() < 0.15:
            nw = max(nw, 1)
        lines = [co.line("c")]
        stale = r.randint(0, 1)
        for d in range(r.choice([1, 1, 2])):
            # once the data of an all-special fragment: every column
            if co.k > 1 and r.random() < 0.12 and 0 < nw <= 80:
                lines += G.data_lines(r, "d%d" % d, co, nw, "zero")
                o = r.randrange(co.nout)
                for w in range(nw):
                    for lane in range(co.lanes()):
                        v = None
                        while v is None:
                            v = G.special_column(r, co, [o])
                        lw = 2 if kind == "nf4" else co.ws
                        for j, x in enumerate(v):
                            lines.append("poke d%d %d %d %s" % (
                                d, j, w * co.ws + lane * lw,
                                x.to_bytes(lw, "little").hex()))
            else:
                lines += G.data_lines(r, "d%d" % d, co, nw)
                lines += G.special_pokes(r, "d%d" % d, co, nw,
                                         r.choice([1, 4, 12, 30]))
            api = r.choice(G.apis(kind))
            want = "1" * co.nout if r.random() < 0.7 \
                else G.wanted(r, co.nout, 0)
            lines += ["show d%d" % d, "enc c d%d o%d %s %s 0 %d" % (
                d, d, api, want, stale), "cols o%d 0 400 1" % d]
            if "0" in want:
                continue
            for _ in range(3):
                lines.append("dec c o%d %s %s %s %s" % (
                    d, r.choice(G.apis(kind)), G.erasure(r, co),
                    G.wanted(r, co.k, 0.8),
                    r.choice(["orig", "shuf", "rev", "shuf"])))
        gs.append(Group(P.name(co, i), lines,
                        variants[(i // 4) % len(variants)],
                        1 + nw * co.k * co.nout / 900))
    return gs


def run(c):
    c.parallel(lambda: c.build([("codec", v) for v in P.VARS]),
               lambda: c.model("MCMarks", P.MARKS_CFG % c.pick(
                   ("FALSE", 3), ("TRUE", 4)), workers=4))
    gs = groups(c, c.pick(420, 5000), P.VARS)
    gs += P.longs(c, P.VARS, c.pick(8, 48), True, 0, 1,
                  ["fntn", "fnts", "nf4", "gpf"])
    gs += P.steps(c, c.pick(60, 800), P.VARS, 14, 100, True, 2, 8, MARKED)
    c.validate("codec", gs, "CodecTrace", P.cfg("marks", "rec"))
