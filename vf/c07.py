from . import codecgen as G
from . import codecprops as P
from . import capiprops as F
from .core import Group


def groups(c, count, variants, types=G.TYPES, maxn=16, tag=0, nodec=False):
    r = c.rng
    gs = []
    ks = sorted(types)
    # blocks are where memory is shared with the caller
    ks = ks + [k for k in ks if k in G.FNT] * 2
    for i in range(count):
        co = G.rcodec(r, ks[i % len(ks)], maxn, types)
        nw = G.words(r, co.pkt, 150)
        aps = G.apis(co.kind)
        aps = aps + ["bl"] * 2 if "bl" in aps else aps
        lines = [co.line("c")] + G.data_lines(r, "d", co, nw)
        lines += G.special_pokes(r, "d", co, nw, 2) + ["show d"]
        lines.append("enc c d o %s %s %d" % (r.choice(aps), "1" * co.nout,
                                             r.choice([0, 1, 3])))
        for j in range(3):
            w = G.wanted(r, co.nout, 0)
            if j == 0:
                w = G.bits(co.nout, [r.randrange(co.nout)])
            lines.append("enc c d p%d %s %s %d %d %d" % (
                j, r.choice(aps), w, r.choice([0, 1, 3, 5]),
                r.randint(0, 1), r.randint(0, 1)))
        for j in range(5):
            w = G.wanted(r, co.k, 0.2)
            if j == 0:
                w = G.bits(co.k, [r.randrange(co.k)])
            if j == 1:
                w = "0" * co.k
            n = r.choice([None, None, co.k, co.k - 1])
            lines.append("dec c o %s %s %s orig %d %d" % (
                r.choice(aps), G.erasure(r, co, n), w,
                r.choice([0, 1, 3, 5]), r.randint(0, 1)))
        gs.append(Group(P.name(co, tag + i), lines,
                        variants[(i // len(ks)) % len(variants)],
                        3 + co.clen / 8))
    return gs


def run(c):
    asan = c.pick(["ASANAVX"], ["ASAN", "ASANAVX"])
    h = []
    c.parallel(lambda: c.build([(x, v) for v in asan + P.VARS
                                for x in ("codec", "capi")]),
               lambda: h.extend(F.histories(c, c.pick(120, 2000), 9, "Mid")),
               lambda: c.model("MCCodec", P.mccodec(c), workers=2))
    gs = groups(c, c.pick(330, 4000), P.VARS)
    gs += groups(c, c.pick(130, 1500), asan, tag=10000, maxn=12)
    gs += P.randoms(c, c.pick(24, 100), P.VARS, ndec=3, tag=30000, maxn=60)
    c.validate("codec", gs, "CodecTrace", P.cfg("mem", "fun"))
    vs = P.VARS + asan
    fs = F.concretize(c, h, vs)
    fs += F.partial(c, c.pick(120, 1500), vs)
    c.validate("capi", fs, "FragTrace", F.cfg("mem"))
