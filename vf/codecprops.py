"""The properties decided by Codec/CodecTrace: scripts and configurations."""
from . import codecgen as G
from .core import Group

VARS = ["OFF", "SSE", "AVX"]


def cfg(*aspects):
    return ("CONSTANT A = {%s}\nINIT TInit\nNEXT TNext\nVIEW View\n"
            "POSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
            % ", ".join('"%s"' % a for a in aspects))


ERASURE_CFG = """CONSTANTS MaxN = %d Few = %s Hi = %d
INIT Init
NEXT Next
INVARIANT Out
CHECK_DEADLOCK FALSE
"""
MCCODE_CFG = """CONSTANTS MaxN = %d Kinds <- %s
INIT Init
NEXT Next
INVARIANTS AnyK Dense Shape
CHECK_DEADLOCK FALSE
"""


def models(c):
    c.model("MCCode", MCCODE_CFG % (c.pick(6, 9), c.pick("KindsQuick",
                                                          "KindsMore")),
            workers=c.pick(2, 8), timeout=c.pick(200, 700))
    if c.tier == "thorough":
        c.model("MCCode", MCCODE_CFG % (5, "KindsWide"), workers=8,
                timeout=700, name="MCCode(wide)")


def erasures(c, maxn, few, hi=0):
    """{(k, m): [bit strings]} as generated by the specification"""
    res = {}
    for b in c.generate("ErasureGen", ERASURE_CFG % (
            maxn, "TRUE" if few else "FALSE", hi)):
        res.setdefault((b["k"], b["m"]), []).append(
            "".join(map(str, b["s"])))
    return res


def combos(types):
    return [(k, tb, ws) for k in sorted(types) for tb, ws in types[k]]


def enumerated(c, era, types, variants, wantfn=None, per=10 ** 9):
    """for each code and parameters of `era`: one encoding, and a decoding
    with each of the generated sets of fragments"""
    r = c.rng
    gs = []
    i = 0
    for (k, m), sets in sorted(era.items()):
        for kind, tb, ws in combos(types):
            if not G.legal(kind, ws, k, m):
                continue
            i += 1
            co = G.Codec(kind, tb, ws, k, m, r.choice([1, 2, 4, 8, 16]))
            n = r.choice([1, co.pkt, co.pkt + 1, 2 * co.pkt + 1, 17])
            n = min(n, 40)
            aps = G.apis(kind)
            a0 = r.choice(aps)
            lines = [co.line("c")] + G.data_lines(r, "d", co, n)
            lines += G.special_pokes(r, "d", co, n, 2)
            lines += ["show d", "enc c d o %s %s" % (a0, "1" * co.nout)]
            ss = sets if len(sets) <= per else r.sample(sets, per)
            for s in ss:
                w = wantfn(r, k) if wantfn else "1" * k
                lines.append("dec c o %s %s %s" % (r.choice(aps), s, w))
            gs.append(Group("%s-%d-%d-%d-%d-e%d" % (kind, tb, ws, k, m, i),
                            lines, variants[i % len(variants)],
                            2 + len(ss) / 4))
    return gs


def encdec(r, co, nw, ndec, special=0, avail=None, mode=None, wantp=0.6,
           show=True):
    aps = G.apis(co.kind)
    lines = [co.line("c")] + G.data_lines(r, "d", co, nw, mode)
    if special:
        lines += G.special_pokes(r, "d", co, nw, special)
    lines += ["show d", "enc c d o %s %s" % (r.choice(aps), "1" * co.nout)]
    for _ in range(ndec):
        n = avail(r, co) if avail else None
        lines.append("dec c o %s %s %s orig %d %d" % (
            r.choice(aps), G.erasure(r, co, n), G.wanted(r, co.k, wantp),
            r.choice([0, 0, 1, 3, 5]), r.randint(0, 1)))
    return lines


def name(co, i):
    return "%s-%d-%d-%d-%d-p%d-%d" % (co.kind, co.tb, co.ws, co.k, co.m,
                                      co.pkt, i)


def randoms(c, count, variants, types=G.TYPES, maxn=24, ndec=4, special=2,
            avail=None, tag=0, wantp=0.6, limit=300, kinds=None, pkt=None):
    r = c.rng
    gs = []
    ks = kinds or sorted(types)
    for i in range(count):
        co = G.rcodec(r, ks[i % len(ks)], maxn, types, pkt)
        nw = G.words(r, co.pkt, limit)
        lines = encdec(r, co, nw, ndec, special, avail, wantp=wantp)
        gs.append(Group(name(co, tag + i), lines,
                        variants[(i // len(ks)) % len(variants)],
                        3 + co.clen / 8))
    return gs


# code lengths seldom met: large ones, the largest legal ones, shapes
LARGE = [
    ("fnts", 16, 1, 128, 128), ("fntn", 16, 1, 128, 128),
    ("fnts", 32, 1, 1, 255), ("fntn", 32, 1, 1, 255),
    ("fnts", 32, 2, 100, 156), ("fntn", 32, 2, 200, 100),
    ("fnts", 32, 2, 300, 300), ("nf4", 64, 4, 130, 10),
    ("nf4", 128, 8, 64, 65), ("nf4", 32, 2, 256, 256),
    ("g2v", 32, 1, 100, 28), ("g2c", 32, 1, 128, 128),
    ("g2v", 32, 2, 60, 20), ("g2c", 64, 2, 70, 40),
    ("g2f", 32, 1, 127, 128), ("g2f", 32, 1, 40, 45),
    ("g2f", 32, 2, 100, 155), ("g2f", 64, 2, 10, 7),
    ("g2a", 32, 1, 128, 128), ("g2a", 32, 2, 100, 200),
    ("gpf", 32, 1, 128, 128), ("gpf", 32, 2, 150, 100),
    ("gpf", 64, 4, 100, 60),
]


# fragments by the thousand: lengths that are not powers of two with gpf, the
# most fragments of a field
HUGE = [
    ("gpf", 64, 4, 2, 8198, 4), ("fntn", 32, 2, 3, 4093, 4),
    ("fnts", 32, 2, 2, 2046, 4), ("g2f", 32, 2, 2, 4000, 4),
    ("g2a", 32, 2, 2, 4094, 4), ("fntn", 32, 2, 2, 65534, 2),
    ("nf4", 64, 4, 2, 3000, 2), ("g2f", 32, 2, 3, 65532, 2),
]


def huge(c, variants):
    return [Group(name(G.Codec(*x), 50000 + i),
                  encdec(c.rng, G.Codec(*x), c.rng.choice([1, 2]), 2),
                  variants[i % len(variants)], 6 + x[4] / 2000)
            for i, x in enumerate(HUGE)]


def large(c, variants, sel=None, special=3, ndec=2):
    r = c.rng
    gs = []
    for i, (kind, tb, ws, k, m) in enumerate(LARGE):
        if sel and not sel(i):
            continue
        co = G.Codec(kind, tb, ws, k, m, r.choice([4, 8, 16]))
        lines = encdec(r, co, r.choice([co.pkt, co.pkt + 3, 5]), ndec,
                       special)
        gs.append(Group(name(co, i), lines, variants[i % len(variants)],
                        12))
    return gs


def steps(c, count, variants, maxn=20, limit=80, cols=False, ndec=3,
          special=3, kinds=None, types=G.TYPES):
    """words and packets one by one at any offset; several objects decoded
    in turns"""
    r = c.rng
    gs = []
    ks = kinds or sorted(types) + ["fntn", "nf4", "fnts"]
    for i in range(count):
        co = G.rcodec(r, ks[i % len(ks)], maxn, types)
        lines = [co.line("c")]
        n = r.choice([1, 2, 2, 3])
        for j in range(n):
            d, nw = "d%d" % j, max(1, G.words(r, co.pkt, limit))
            lines += G.data_lines(r, d, co, nw)
            lines += G.special_pokes(r, d, co, nw, special)
            lines.append("show " + d)
            for a in r.sample([G.raw(r, co.kind), G.raw(r, co.kind),
                               r.choice(G.apis(co.kind))],
                              3 if j == 0 else 1):
                lines.append("enc c %s o%d %s %s" % (
                    d, j, a, "1" * co.nout))
            if cols:
                lines.append("cols o%d 0 40 1" % j)
        sets = []
        while len(sets) < ndec + 3:
            s = G.erasure(r, co)
            if G.rawok(co, s):
                sets.append(s)
        for s in sets[:ndec]:
            lines.append("dec c o%d %s %s %s %s" % (
                r.randrange(n), r.choice([G.raw(r, co.kind)] * 3
                                         + [r.choice(G.apis(co.kind))]),
                s, G.wanted(r, co.k), r.choice(["orig", "orig", "shuf",
                                                "text"])))
        if co.kind not in ("g2v", "g2c"):
            lines.append("decs c %s %d %s" % (
                G.raw(r, co.kind), r.randrange(1000),
                " ".join("o%d %s" % (r.randrange(n), s)
                         for s in sets[-r.choice([2, 2, 3]):])))
        gs.append(Group("steps-" + name(co, i), lines,
                        variants[(i // len(ks)) % len(variants)],
                        4 + co.clen / 8))
    return gs


EDGES = [255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537]


def longs(c, variants, count, cols=False, others=0, ndec=2, kinds=None):
    """fragments of more than 2^16 words, large packets, special symbols at
    the places where a narrow counter or offset would wrap, and fragments
    that consist of special symbols"""
    r = c.rng
    gs = []
    ks = kinds or ["fntn", "fnts", "nf4", "gpf", "fntn", "g2f", "fnts",
                   "nf4", "g2a", "g2v", "g2c"]
    for i in range(count):
        kind = ks[i % len(ks)]
        tb, ws = r.choice([t for t in G.TYPES[kind]
                           if kind in G.FNT or t[0] < 128])
        co = G.Codec(kind, tb, ws, r.randint(2, 3), r.randint(1, 2),
                     r.choice([64, 100, 256, 1000, 1024, 2048, 4096, 5000]))
        nw = r.choice([65536, 65537, 66000 + r.randrange(5000), 70000])
        if i % 4 == 3:      # shorter, around large packets
            nw = min(20000, co.pkt * r.randint(1, 3) + r.choice([-1, 0, 1, 9]))
        marked = bool(G.prime(kind, ws))
        lines = [co.line("c")]
        allspecial = marked and (i // len(ks)) % 3 == 0 and i % 2 == 0
        lw = 2 if kind == "nf4" else ws
        if allspecial:
            lines += G.data_lines(r, "d", co, nw, "zero")
            v = None
            while v is None:
                v = G.special_column(r, co, [r.randrange(co.nout)])
            for j, x in enumerate(v):
                lines.append("fill d %d %s" % (
                    j, x.to_bytes(lw, "little").hex()))
        else:
            lines += G.data_lines(r, "d", co, nw, r.choice(["rnd", "mix"]))
            for w in EDGES + [nw - 1] + [r.randrange(nw) for _ in range(3)]:
                if not marked or w >= nw:
                    continue
                v = G.special_column(r, co, [r.randrange(co.nout)])
                for j, x in enumerate(v or []):
                    lines.append("poke d %d %d %s" % (
                        j, w * ws, x.to_bytes(lw, "little").hex()))
        aps = G.apis(kind)
        lines += ["show d", "enc c d o %s %s" % (r.choice(aps),
                                                 "1" * co.nout)]
        if cols:
            for f, n, s in ((0, 12, 1), (250, 12, 1), (32764, 8, 1),
                            (65530, 12, 1), (nw - 4, 4, 1)):
                if f < nw:
                    lines.append("cols o %d %d %d" % (f, n, s))
        for j in range(others):
            lines += [G.Codec(kind, tb, ws, co.k, co.m, r.choice(
                [7, 128, 1000, 1024, 4096, 70000])).line("b%d" % j),
                "enc b%d d p%d %s %s" % (j, j, r.choice(aps),
                                         "1" * co.nout)]
        for j in range(ndec):
            lines.append("dec c o %s %s %s %s" % (
                r.choice(aps), G.erasure(r, co), "1" * co.k,
                r.choice(["orig", "orig", "shuf"])))
        gs.append(Group("long-" + name(co, i), lines,
                        variants[i % len(variants)], 25))
    return gs


MARKS_CFG = """CONSTANTS A = {} Lanes = 2 Lim = 2 Pkt = 2 AllOrders = %s W = %d
INIT Init
NEXT Next
INVARIANTS Incremental Restores Needed
CHECK_DEADLOCK FALSE
"""


def mccodec(c):
    kind, k, m = c.pick(("fnts", 2, 1), ("fntn", 2, 1))
    return ("CONSTANTS A <- All Kind = \"%s\" K = %d M = %d Lens = {0, 3} "
            "Vals = {\"u\", \"v\"}\nINIT MCInit\nNEXT MCNext\nVIEW MCView\n"
            "INVARIANTS Agree Live\nCHECK_DEADLOCK FALSE\n" % (kind, k, m))


GEN_CFG = """CONSTANTS Depth = %d NData = %d
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
"""


def histories(c, num, depth, ndata=3):
    return c.generate("CodecGen", GEN_CFG % (depth, ndata), extra=[
        "-simulate", "num=%d" % num, "-depth", str(depth + 2),
        "-seed", str(c.seed)])


def concretize(c, hists, variants, types=G.TYPES, maxn=12, kinds=None,
               stats=False, merged=False, tag="h", limit=120, fresh=True):
    """scripts of the generated histories with chosen parameters"""
    r = c.rng
    gs = []
    ks = kinds or sorted(types) + ["fnts", "fntn", "nf4"]
    for i, h in enumerate(hists):
        kind = ks[i % len(ks)]
        pa = G.rcodec(r, kind, maxn, types)
        pb = G.rcodec(r, r.choice(ks), maxn, types)
        tws = [tb for tb, ws in types[kind] if ws == pa.ws]
        inst = {"a": pa, "b": G.Codec(kind, r.choice(tws), pa.ws, pa.k, pa.m,
                                      r.choice(G.PKTS)), "c": pb}
        lines = []
        nws = {}
        for p, co in ((1, pa), (2, pb)):
            for d in range(1, 4):
                n = G.words(r, r.choice([pa.pkt, inst["b"].pkt]), limit)
                nws[(p, d)] = n
                dn = "d%d%d" % (p, d)
                lines += G.data_lines(r, dn, co, n)
                if r.random() < 0.6:
                    lines += G.special_pokes(r, dn, co, n, r.choice([1, 5]))
                lines.append("show " + dn)
        for op in h:
            co = inst[op["c"]]
            nm = op["c"]
            aps = G.apis(co.kind)
            if op["op"] == "new":
                lines.append(co.line(nm))
            elif op["op"] == "drop":
                lines.append("drop " + nm)
            elif op["op"] == "enc":
                w = "1" * co.nout if op["w"] == "all" \
                    else G.wanted(r, co.nout, 0)
                if r.random() < .2:
                    aps = [G.raw(r, co.kind)]
                lines.append("enc %s d%d%d %s %s %s %d %d" % (
                    nm, op["p"], op["d"], op["o"], r.choice(aps), w,
                    r.choice([0, 0, 1, 3]), r.randint(0, 1)))
            elif op["op"] == "dec":
                if op["s"] == "min":
                    s = G.erasure(r, co, co.k)
                elif op["s"] == "more":
                    s = G.erasure(r, co)
                elif op["s"] == "few":
                    s = G.erasure(r, co, r.randint(0, co.k - 1))
                else:
                    s = "1" * co.k + "".join(r.choice("01")
                                             for _ in range(co.m))
                if r.random() < .2 and G.rawok(co, s):
                    aps = [G.raw(r, co.kind)]
                lines.append("dec %s %s %s %s %s %s %d %d %d" % (
                    nm, op["o"], r.choice(aps), s, G.wanted(r, co.k),
                    r.choice(["orig", "orig", "shuf"]), r.choice([0, 0, 1, 3]),
                    0, op["again"]))
            elif op["op"] == "reset":
                lines.append("reset %s %s" % (nm, op["dir"]))
            if op["op"] == "stats" or (stats and op["op"] in ("reset",
                                                              "dec")):
                lines.append("stats " + nm)
        if fresh:   # what a new instance makes of the same
            f = G.Codec(kind, pa.tb, pa.ws, pa.k, pa.m, pa.pkt)
            lines.append(f.line("f"))
            for d in (1, 2, 3):
                lines.append("enc f d1%d f%d %s %s" % (
                    d, d, r.choice(G.apis(kind)), "1" * f.nout))
        gs.append(Group("%s-%s" % (tag, name(pa, i)), lines,
                        variants[0] if merged
                        else variants[(i // len(ks)) % len(variants)],
                        3 + pa.clen / 8))
    return gs


def threads(c, gs, count, variants):
    """`count` groups in which several of the given groups (histories of
    instances of their own) run at the same time"""
    r = c.rng
    res = []
    for i in range(count):
        first = r.choice(gs)
        fam = first.name.split("-")[1]
        same = [g for g in gs if g.name.split("-")[1] == fam]
        part = [first, first] + [r.choice(same), r.choice(gs)]
        lines = []
        for g in part:
            lines += ["thread"] + g.lines
        res.append(Group("threads-%s-%d" % (fam, i), lines,
                         variants[i % len(variants)],
                         sum(g.cost for g in part)))
    return res
