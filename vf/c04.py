from . import capiprops as F
from . import codecgen as G
from .core import Group

EDGE = [0, 1, 2, 255, 256, 65535, 65536, 1 << 24, (1 << 31) - 1, 1 << 31,
        (1 << 32) - 2, (1 << 32) - 1]


def pos(r):
    x = r.random()
    if x < 0.3:
        return r.choice(EDGE)
    if x < 0.6:
        return r.randrange(1 << r.choice([8, 16, 24, 32]))
    return r.randrange(1 << 32)


def headers(c, count, variants):
    r = c.rng
    gs = []
    for i in range(count):
        lines = []
        for _ in range(24):
            nd = r.choice([0, 1, 2, 3, 4, 5, 8, 16, 17, 20, r.randint(2, 40)])
            n = max(0, nd - 2 + r.choice([0, 0, -1, 1, -2, 2,
                                          -r.randint(0, nd)]))
            lines.append("ser %d %d %s" % (nd, r.choice([1, 3, 3]), " ".join(
                str(pos(r)) for _ in range(n))))
        for _ in range(40):
            nd = r.choice([0, 1, 2, 2, 3, 4, 5, 8, 16, 17, r.randint(2, 40),
                           300])
            n = max(0, min(nd, nd - 2 + r.choice([0, 0, -1, -2, -nd // 2])))
            w = [0x464E5431, n] + [pos(r) for _ in range(n)]
            w += [0] * (nd - len(w))
            w = w[:nd]
            x = r.random()
            if x < 0.25 and nd:
                w[0] = r.choice([w[0] ^ (1 << r.randrange(32)), 0, pos(r),
                                 0x3154 << 16 | 0x4E46, 0xffffffff])
            if x > 0.5 and nd > 1:
                w[1] = r.choice([nd - 2, nd - 1, nd, nd + 1, 1 << 31,
                                 0xffffffff, 0xfffffffe, 0xfffffffd,
                                 1 << 30, (1 << 30) - 2, n << 24, n << 8,
                                 0x100000000 - nd, pos(r)]) & 0xffffffff
            if x > 0.9:     # anything in the tail
                w = w[:2] + [pos(r) for _ in w[2:]]
            h = b"".join(v.to_bytes(4, "big") for v in w).hex() or "-"
            lines.append("deser %d %s" % (r.choice([1, 3, 3]), h))
        gs.append(Group("headers-%d" % i, lines, variants[i % len(variants)],
                        4))
    return gs


def encodings(c, count, variants):
    r = c.rng
    gs = []
    for i in range(count):
        sys, ws = i % 2, r.choice([1, 2, 2])
        k, m = r.randint(2, 6), r.randint(1, 5)
        co = F.codec(sys, ws, k, m)
        full = r.choice([0, 0, 1, 12, 13, 14, 14, 15, 16, 40])
        bs = F.blocksize(r, ws, 0.3 if not full else 0)
        if full:
            bs = max(bs, ws * (full + r.randint(0, 30)))
        if full == 14 and r.random() < 0.3:
            bs, full = 65536 * r.choice([1, 2]), r.choice([15, 16, 17])
        lines = ["inst i %d %d %d %d" % (ws, k, m, sys)]
        for b in (bs, bs + 1, 65535, 65536, 131072, r.randrange(1 << 30)):
            lines.append("msize i %d" % b)
        lines += F.data(r, "d", co, bs, full=full)
        for j in range(3):
            w = "1" * co.nout if j == 0 else G.wanted(r, co.nout, 0.2)
            lines.append("enc i d s%d %s %d %d" % (
                j, w, r.choice([0, 1]), r.randint(0, 1)))
        gs.append(Group("enc-%d-%d-%d-%d-%d-full%d-%d" % (
            sys, ws, k, m, bs, full, i), lines, variants[i % len(variants)],
            3 + bs / 10000))
    for i, ws in enumerate([0, 1, 2, 3, 4, 8, -1]):
        gs.append(Group("ws%d" % ws, ["inst i %d 3 2 %d" % (ws, i % 2)],
                        variants[0]))
    return gs


def run(c):
    asan = ["ASANAVX"]
    c.parallel(lambda: c.build([("capi", v) for v in F.VARS + asan]),
               lambda: c.model("MCHeader", F.MCH % c.pick((5, 3), (7, 5)),
                               workers=4))
    vs = F.VARS + asan
    gs = headers(c, c.pick(80, 1500), vs)
    gs += encodings(c, c.pick(160, 2000), vs)
    c.validate("capi", gs, "FragTrace", F.cfg("hdr", "enc"))
