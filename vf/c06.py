from . import codecgen as G
from . import codecprops as P
from .core import Group


def groups(c, count, variants, types, maxn, cols, tag=0, limit=200):
    r = c.rng
    gs = []
    ks = sorted(types)
    for i in range(count):
        co = G.rcodec(r, ks[i % len(ks)], maxn, types)
        nw = max(1, G.words(r, co.pkt, limit))
        lines = [co.line("c")] + G.data_lines(r, "d", co, nw)
        lines += G.special_pokes(r, "d", co, nw, 2)
        lines += ["show d", "enc c d o %s %s" % (
            r.choice(G.apis(co.kind)), "1" * co.nout)]
        step = max(1, nw // cols)
        while step > 1 and step % 2 == 0:
            step -= 1
        lines.append("cols o 0 %d %d" % (cols + 2, step))
        if nw > cols:       # the end, too
            lines.append("cols o %d 4 1" % (nw - 4))
        gs.append(Group(P.name(co, tag + i), lines,
                        variants[(i // len(ks)) % len(variants)],
                        1 + co.nout * co.k * cols / 800
                        + (40 if co.ws > 2 and co.kind[:2] == "g2" else 0)))
    return gs


def run(c):
    c.parallel(lambda: c.build([("codec", v) for v in P.VARS]),
               lambda: P.models(c))
    vs = P.VARS
    gs = groups(c, c.pick(420, 4000), vs, G.TYPES, 20, 24)
    gs += groups(c, c.pick(32, 240), vs, G.WIDE, 7, 3, 10000, 8)
    gs += groups(c, c.pick(4, 12), vs, G.WIDEST, 5, c.pick(1, 2), 20000, 4)
    r = c.rng
    for i, (kind, tb, ws, k, m) in enumerate(P.LARGE):
        if k * m > c.pick(4000, 10 ** 6) and kind in G.SYS:
            continue
        co = G.Codec(kind, tb, ws, k, m, 8)
        nw = 11
        gs.append(Group(P.name(co, i), [co.line("c")]
                        + G.data_lines(r, "d", co, nw)
                        + ["show d", "enc c d o %s %s" % (
                            r.choice(G.apis(kind)), "1" * co.nout),
                            "cols o 0 3 5"], vs[i % 3], 60))
    c.validate("codec", gs, "CodecTrace", P.cfg("words", "new"))
