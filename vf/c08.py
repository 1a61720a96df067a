from . import codecgen as G
from . import codecprops as P
from . import capiprops as F
from .core import Group


def groups(c, count, variants, types=G.TYPES, maxn=14, tag=0, limit=300):
    r = c.rng
    gs = []
    ks = sorted(types) + ["fnts", "fntn", "nf4"]
    for i in range(count):
        co = G.rcodec(r, ks[i % len(ks)], maxn, types)
        tws = [tb for tb, ws in types[co.kind] if ws == co.ws]
        cs = [co]
        for _ in range(3):
            cs.append(G.Codec(co.kind, r.choice(tws), co.ws, co.k, co.m,
                              r.choice(G.PKTS)))
        nw = G.words(r, r.choice(cs).pkt, limit)
        aps = G.apis(co.kind)
        lines = [x.line("c%d" % j) for j, x in enumerate(cs)]
        lines += G.data_lines(r, "d", co, nw)
        lines += G.special_pokes(r, "d", co, nw, 4) + ["show d"]
        for j in range(len(cs)):
            lines.append("enc c%d d o%d %s %s" % (
                j, j, aps[j % len(aps)], "1" * co.nout))
        for j in range(6):
            lines.append("dec c%d o%d %s %s %s" % (
                r.randrange(4), r.randrange(4), r.choice(aps),
                G.erasure(r, co), "1" * co.k if j else G.wanted(r, co.k)))
        gs.append(Group(P.name(co, tag + i), lines,
                        variants[(i // len(ks)) % len(variants)],
                        3 + co.clen / 8))
    return gs


def run(c):
    c.parallel(lambda: c.build([(x, v) for v in P.VARS
                                for x in ("codec", "capi")]),
               lambda: c.model("MCCodec", P.mccodec(c), workers=2))
    gs = groups(c, c.pick(330, 4000), P.VARS)
    # every length around a few packet sizes
    r = c.rng
    for i, kind in enumerate(["fnts", "fntn", "nf4"] * c.pick(3, 9)):
        co = G.rcodec(r, kind, 9, pkt=r.choice([3, 4, 8, 16]))
        lines = [co.line("c"), G.Codec(co.kind, co.tb, co.ws, co.k, co.m,
                                       100).line("b")]
        for nw in range(0, 2 * co.pkt + 3):
            aps = G.apis(kind)
            lines += G.data_lines(r, "d", co, nw) + ["show d"]
            a = aps[nw % len(aps)]
            lines += ["enc c d o %s %s" % (a, "1" * co.nout),
                      "enc b d p %s %s" % (aps[(nw + 1) % len(aps)],
                                           "1" * co.nout),
                      "dec c p %s %s %s" % (r.choice(aps),
                                            G.erasure(r, co), "1" * co.k)]
        gs.append(Group("len-" + P.name(co, i), lines, P.VARS[i % 3], 10))
    gs += P.longs(c, P.VARS, c.pick(11, 44), False, 2)
    gs += P.steps(c, c.pick(60, 800), P.VARS, 14)
    c.validate("codec", gs, "CodecTrace", P.cfg("len", "fun", "rec"))
    # the C API gives the same fragments (headers aside)
    c.validate("capi", F.partial(c, c.pick(150, 2000), P.VARS), "FragTrace",
               F.cfg("enc"))
