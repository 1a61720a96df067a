"""Scripts for the math harness."""
from .core import Group

CFG = ("INIT TInit\nNEXT TNext\nVIEW View\nPOSTCONDITION Accepted\n"
       "CHECK_DEADLOCK FALSE\n")
BIG = [65539, 131071, 998244353, 1000000007, 2147483647, 3221225473,
       4293918721, 4294967291]
BIG64 = [2305843009213693951, 4179340454199820289, 18446744069414584321]
Q = 4294991873
SIMD = ["OFF", "SSE", "AVX"]


class Field:
    def __init__(self, t, k, par):
        self.t, self.k, self.par = t, k, par
        self.bits = int(t[1:])

    def line(self, name, moved=False):
        """moved: from another, that is gone"""
        return "field %s %s %s %d" % (
            name, self.t, self.k.upper() if moved else self.k, self.par)

    @property
    def card(self):
        return {"p": self.par, "b": 2 ** self.par if self.k == "b" else 0,
                "l": 65537}[self.k]

    @property
    def order(self):
        return self.card - 1

    def __str__(self):
        return "%s-%s%d" % (self.t, self.k, self.par)


def F(t, k, p):
    return Field(t, k, p)


PRIMES = [F("u16", "p", p) for p in (2, 3, 7, 17, 97, 251, 257, 65521)] + \
    [F("u32", "p", p) for p in [2, 5, 31, 257, 7681, 65521, 65537] + BIG] + \
    [F("u64", "p", p) for p in [3, 257, 65537, 2147483647, Q] + BIG64] + \
    [F("u128", "p", p) for p in (17, 257, 65537, Q, BIG64[0], BIG64[1])]
BINARY = [F("u32", "b", n) for n in (1, 2, 3, 4, 8, 16, 32)] + \
    [F("u64", "b", n) for n in (2, 4, 8, 16, 32, 64)] + \
    [F("u128", "b", n) for n in (3, 4, 8, 16, 32, 64, 128)]
LANES = [F("u32", "l", 1), F("u64", "l", 1), F("u64", "l", 2),
         F("u128", "l", 1), F("u128", "l", 2), F("u128", "l", 4)]


def factor(n):
    fs, d = [], 2
    while d * d <= n:
        while n % d == 0:
            fs.append(d)
            n //= d
        d += 1 if d == 2 else 2
    if n > 1:
        fs.append(n)
    return fs


_ORD = {2 ** 64 - 1: [3, 5, 17, 257, 641, 65537, 6700417],
        2 ** 128 - 1: [3, 5, 17, 257, 641, 65537, 274177, 6700417,
                       67280421310721]}


def order_factors(f):
    if f.order not in _ORD:
        _ORD[f.order] = factor(f.order)
    return _ORD[f.order]


def rand_divisor(r, f, limit=None):
    d = 1
    fs = list(order_factors(f))
    r.shuffle(fs)
    for p in fs:
        if r.random() < 0.6 and (limit is None or d * p <= limit):
            d *= p
    return d


def divisors(f, limit):
    ds = {1}
    for p in order_factors(f):
        ds |= {d * p for d in ds if d * p <= limit}
    return sorted(ds)


def groups(name, lines, variants, cost=1):
    return Group(name, lines, variants, cost)
