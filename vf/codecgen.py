"""Inputs for the codec harness: parameters, data, erasures.  Nothing here
judges results; the arithmetic below only makes data whose codeword has
symbols that do not fit in a word."""

# kind -> list of (bits of T, word size)
TYPES = {
    "fnts": [(16, 1), (32, 1), (32, 2)],
    "fntn": [(16, 1), (32, 1), (32, 2)],
    "nf4": [(32, 2), (64, 2), (64, 4), (128, 2), (128, 4), (128, 8)],
    "g2v": [(32, 1), (32, 2), (64, 1), (64, 2), (128, 2)],
    "g2c": [(32, 1), (32, 2), (64, 1), (64, 2), (128, 2)],
    "g2f": [(32, 1), (32, 2), (64, 1), (64, 2), (128, 1)],
    "g2a": [(32, 1), (32, 2), (64, 1), (64, 2), (128, 2)],
    "gpf": [(32, 1), (32, 2), (64, 1), (64, 2), (64, 4)],
}
WIDE = {    # GF(2^32), GF(2^64): slow to set up
    "g2v": [(32, 4), (64, 4), (64, 8), (128, 8)],
    "g2c": [(32, 4), (64, 4), (64, 8), (128, 8)],
    "g2f": [(32, 4), (64, 4), (64, 8), (128, 8)],
    "g2a": [(32, 4), (64, 4), (64, 8), (128, 8)],
}
WIDEST = {k: [(128, 16)] for k in ("g2v", "g2c", "g2f", "g2a")}
FNT = ("fnts", "fntn", "nf4")
SIMD = FNT
SYS = ("fnts", "g2v", "g2c")


def apis(kind):
    if kind == "fnts":
        return ["sv", "bl"]
    if kind in ("fntn", "nf4"):
        return ["sh", "sv", "bl"]
    return ["sh"]


BASES = [0, 0, 1, 2, 63, 65535, 2 ** 31 - 1, 2 ** 31 - 5, 2 ** 31,
         2 ** 32 - 1, 2 ** 32 - 3, 2 ** 32, 2 ** 33 + 7, 2 ** 48 - 2,
         2 ** 62, 2 ** 63 - 1 - 2 ** 20]


def raw(r, kind):
    """word by word or packet by packet, from some offset"""
    w = {"fnts": ["pk"], "fntn": ["wd", "pk"], "nf4": ["wd", "pk"]}
    return "%s:%d" % (r.choice(w.get(kind, ["wd"])), r.choice(BASES))


def rawok(co, s):
    """decoding step by step is for the caller who needs it and can"""
    return s.count("1") >= co.k and not (co.sys and "0" not in s[:co.k])


def prime(kind, ws):
    if kind in ("fnts", "fntn"):
        return 257 if ws == 1 else 65537
    if kind == "nf4":
        return 65537
    if kind == "gpf":
        return {1: 257, 2: 65537, 4: 4294991873}[ws]
    return 0


def factors(n):
    r, d = [], 2
    while d * d <= n:
        while n % d == 0:
            r.append(d)
            n //= d
        d += 1
    return r + ([n] if n > 1 else [])


ORDERS = {}


def order_factors(kind, ws):
    p = prime(kind, ws)
    if p:
        if p not in ORDERS:
            ORDERS[p] = factors(p - 1)
        return ORDERS[p]
    return {1: [3, 5, 17], 2: [3, 5, 17, 257], 4: [3, 5, 17, 257, 65537],
            8: [3, 5, 17, 257, 641, 65537, 6700417],
            16: [3, 5, 17, 257, 641, 65537, 274177, 6700417,
                 67280421310721]}[ws]


def high_compo(fs, n):
    p, i = 1, 0
    while p < n and i < len(fs):
        p *= fs[i]
        i += 1
    for f in fs[:i]:
        if p // f >= n:
            p //= f
        else:
            break
    return p


def legal(kind, ws, k, m):
    if k < 1 or m < 1:
        return False
    if kind in ("g2v", "g2c"):
        return k + m <= 2 ** (8 * min(ws, 2))
    if kind == "g2a":
        return k + m <= 2 ** (8 * min(ws, 2))
    q1 = 1
    for f in order_factors(kind, ws):
        q1 *= f
    return k + m <= q1 and 2 * k <= q1


class Codec:
    def __init__(self, kind, tb, ws, k, m, pkt):
        self.kind, self.tb, self.ws, self.k, self.m, self.pkt = \
            kind, tb, ws, k, m, pkt
        self.sys = kind in SYS
        self.nout = m if self.sys else k + m
        self.clen = k + m

    def line(self, name):
        return "codec %s %s %d %d %d %d %d" % (
            name, self.kind, self.tb, self.ws, self.k, self.m, self.pkt)

    def key(self):
        return (self.kind, self.ws, self.k, self.m)

    def lanes(self):
        return self.ws // 2 if self.kind == "nf4" else 1


PKTS = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100]


def dims(r, kind, ws, maxn):
    """n_data and n_parities, all shapes"""
    while True:
        c = r.random()
        if c < 0.15:
            k, m = r.randint(1, 3), r.randint(1, 3)
        elif c < 0.3:
            n = r.choice([4, 8, 16, 32, 64, 128, 256])
            k = r.randint(1, n)
            m = n - k
        elif c < 0.4:
            k, m = 1, r.randint(1, 9)
        elif c < 0.5:
            k, m = r.randint(1, 12), 1
        elif c < 0.6:
            k = r.choice([2, 4, 8, 16, 32])
            m = r.choice([2, 4, 8, 16, 32])
        else:
            k, m = r.randint(2, 14), r.randint(1, 10)
        if k + m <= maxn and legal(kind, ws, k, m):
            return k, m


def rcodec(r, kind=None, maxn=24, types=TYPES, pkt=None):
    kind = kind or r.choice(sorted(types))
    tb, ws = r.choice(types[kind])
    k, m = dims(r, kind, ws, maxn)
    return Codec(kind, tb, ws, k, m, pkt or r.choice(PKTS))


def words(r, pkt, limit=400):
    """number of words: around the packet boundaries"""
    c = r.random()
    if c < 0.05:
        return 0
    if c < 0.15:
        return r.randint(1, 4)
    base = pkt * r.choice([1, 1, 2, 2, 3, 4])
    if c < 0.4:
        n = base
    elif c < 0.6:
        n = base + 1
    elif c < 0.75:
        n = base - 1
    else:
        n = base + r.randint(0, pkt)
    return max(0, min(n, limit))


MODES = ["rnd", "rnd", "mix", "ff", "sparse", "zero"]


def data_lines(r, name, c, nwords, mode=None):
    return ["data %s %d %d %d %s" % (name, c.k, nwords * c.ws,
                                     r.randrange(1 << 30),
                                     mode or r.choice(MODES))]


def poly_mul(p, a, b):
    res = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            res[i + j] = (res[i + j] + x * y) % p
    return res


_roots = {}


def root(kind, ws, k, m):
    key = (kind, ws, k, m)
    if key not in _roots:
        p = prime(kind, ws)
        n = high_compo(order_factors(kind, ws), k + m)
        _roots[key] = pow(3, (p - 1) // n, p)
    return _roots[key]


def special_column(r, c, outs, base=None):
    """words of the data fragments such that the given outputs have the
    largest symbol, which does not fit in a word; None if unlucky"""
    p = prime(c.kind, c.ws)
    lim = p - 1
    if len(outs) > c.k - 1 and not (c.k == 1 and not outs):
        return None
    rt = root(*c.key())
    z = [1]
    for i in outs:
        x = pow(rt, (c.k if c.sys else 0) + i, p)
        z = poly_mul(p, z, [(-x) % p, 1])
    for _ in range(20):
        d = c.k - 1 - len(outs)
        q = [r.randrange(p) for _ in range(d + 1)]
        if base is not None and r.random() < 0.5:
            q = [base] + [0] * d
        co = poly_mul(p, z, q)
        co[0] = (co[0] + lim) % p
        if c.sys:
            vals = []
            for j in range(c.k):
                x = pow(rt, j, p)
                v = 0
                for a in reversed(co):
                    v = (v * x + a) % p
                vals.append(v)
        else:
            vals = co
        if all(v < 2 ** (8 * (2 if c.kind == "nf4" else c.ws))
               for v in vals):
            return vals
    return None


def special_pokes(r, name, c, nwords, count, outs_of=None):
    """pokes that make special symbols at chosen places of the data"""
    if not prime(c.kind, c.ws) or nwords == 0 or c.k < 2:
        return []
    lines = []
    places = set()
    for _ in range(count):
        x = r.random()
        if x < 0.25:
            w = r.choice([0, nwords - 1])
        elif x < 0.6:       # at packet edges
            w = min(nwords - 1, max(0, r.randint(0, nwords // c.pkt) * c.pkt
                                    + r.choice([-1, 0])))
        else:
            w = r.randrange(nwords)
        places.add(w)
    lw = 2 if c.kind == "nf4" else c.ws
    for w in sorted(places):
        lanes = [l for l in range(c.lanes()) if r.random() < 0.6] or [0]
        for lane in lanes:
            ns = r.choice([1, 1, 1, 2, 2, 3, c.k - 1])
            outs = r.sample(range(c.nout), min(ns, c.k - 1, c.nout))
            if outs_of:
                outs = outs_of(outs)
            v = special_column(r, c, outs)
            if v is None:
                continue
            for j, x in enumerate(v):
                lines.append("poke %s %d %d %s" % (
                    name, j, w * c.ws + lane * lw,
                    x.to_bytes(lw, "little").hex()))
    return lines


def bits(n, ones):
    s = set(ones)
    return "".join("1" if i in s else "0" for i in range(n))


def erasure(r, c, avail=None):
    """the available fragments, at least k unless avail is given"""
    n = avail if avail is not None else (
        c.k if r.random() < 0.6 else r.randint(c.k, c.clen))
    ids = list(range(c.clen))
    x = r.random()
    if x < 0.55:
        s = r.sample(ids, n)
    elif x < 0.7:
        s = ids[-n:] if n else []
    elif x < 0.8:
        s = ids[:n]
    elif x < 0.9:       # all but a contiguous run
        o = r.randrange(c.clen)
        s = [(o + i) % c.clen for i in range(n)]
    else:               # every second one first
        s = (ids[1::2] + ids[::2])[:n]
    return bits(c.clen, s)


def wanted(r, n, all_p=0.6):
    if r.random() < all_p:
        return "1" * n
    return "".join(r.choice("01") for _ in range(n))
