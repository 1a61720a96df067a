"""Integer helpers."""
from math import gcd

from . import mathgen as M
from .core import Group

SMALLP = [p for p in range(2, 1000) if all(p % d for d in range(2, p)
                                           if d * d <= p)]
MIDP = [1009, 4093, 8191, 65521, 65537, 46337, 46349, 1048573, 16777213,
        104729, 1299709, 15485863, 1073741789]
BIG32 = M.BIG
BIG64 = M.BIG64
MAX = {"u32": 2 ** 32 - 1, "u64": 2 ** 64 - 1}


def is_prime(n):
    return n > 1 and M.factor(n) == [n]


def number(r, top, maxprime=1 << 30):
    """a number and its factors"""
    while True:
        n, fs = 1, []
        for _ in range(r.randint(1, 8)):
            p = r.choice([2, 2, 3, r.choice(SMALLP), r.choice(SMALLP),
                          r.choice(MIDP)])
            e = r.choice([1, 1, 1, 2, 3])
            for _ in range(e):
                if n * p <= top and p <= maxprime:
                    n *= p
                    fs.append(p)
        if n > 1:
            return n, sorted(fs)


def with_factors(n, fs):
    return " ".join(map(str, [n] + (fs if n >= 2000 else [])))


def run(c):
    c.build([("math", v) for v in M.SIMD])
    r = c.rng
    gs = []

    def rnd(t):
        top = MAX[t]
        return r.choice([r.randint(0, top), r.randint(0, 300),
                         r.randint(0, 1 << r.randint(1, top.bit_length())) %
                         (top + 1), top, top - 1, top // 2, 1 << 31, 65535,
                         65536, 65537])

    def pos(t):
        return max(1, rnd(t))

    for t in ("u32", "u64"):
        half = 1 << (16 if t == "u32" else 32)
        for part in range(c.pick(2, 12)):
            L = []

            def A(op, *args):
                L.append("arith %s %s %s" % (t, op,
                                             " ".join(map(str, args))))
            n = c.pick(40, 300)
            for _ in range(n):
                x = pos(t)
                A("sqrt", x)
                s = r.randrange(1, half)
                for y in (s * s, s * s - 1, s * s + 2 * s):
                    if 0 < y <= MAX[t]:
                        A("sqrt", y)
                b = r.choice([0, 1, 2, 3, 10, r.randint(0, half - 1)])
                e = 0
                while e < 70 and b ** (e + 1) <= MAX[t]:
                    e += 1
                A("exp", b, r.randint(0, e))
                A("exp", b, e)
                A("exp_mod", rnd(t), rnd(t), pos(t))
                A("exp_mod", rnd(t), r.randint(0, 3), pos(t))
                a, b = rnd(t), rnd(t)
                g = r.choice([1, 1, 2, 6, 65537])
                if a * g <= MAX[t] and b * g <= MAX[t]:
                    a, b = a * g, b * g
                A("egcd", a, b)
                A("gcd", a, b)
                # n values, and coprime moduli
                ms, lim = [], 1 << (14 if t == "u32" else 30)
                for _ in range(r.randint(1, 4)):
                    m = r.choice([r.randint(2, 50), r.choice(SMALLP)])
                    pr = m
                    for x in ms:
                        pr *= x
                    if all(gcd(m, x) == 1 for x in ms) and pr <= lim:
                        ms.append(m)
                if ms:
                    A("crt", *([r.randrange(x) for x in ms] + ms))
                m, fs = number(r, MAX[t])
                fs = [p for p in fs if p > 2]
                m = 1
                for p in fs:
                    m *= p
                sg = r.choice([1, -1])
                A("jacobi", sg * rnd(t), m, *fs)
                A("jacobi", r.randint(-20, 20),
                  r.choice([-3, 0, 2, 4, -1, -7, 2 * m]))
                big = [p for p in BIG32 + (BIG64 if t == "u64" else [])
                       if p <= MAX[t]]
                p = r.choice(big)
                A("jacobi", sg * rnd(t), p, p)
                if m > 1:
                    A("solovay", rnd(t) % m, m, *fs)
                A("solovay", rnd(t) % p, p, p)
                m, fs = number(r, MAX[t])
                A("is_prime", r.choice(MIDP + BIG32[:4] + [m]))
            for _ in range(n // 2):
                m, fs = number(r, MAX[t])
                for op in r.sample(["distinct", "factor", "factors"], 2):
                    A(op, m)
                A("coprimes", with_factors(m, fs))
                A(r.choice(["proper", "proper2"]), with_factors(m, fs))
                # the divisors are looked for one by one
                d, fs = number(r, 1 << 30)
                A("divisors", with_factors(d, fs))
                q = r.randint(1, d)
                A("len", d, q, *fs)
                A("high", d, q, *fs)
                dd = r.choice([x for x in range(1, 200) if d % x == 0])
                for q in (dd, dd + 1, d // dd, d // dd - 1, d // dd + 1):
                    if 0 < q <= d:
                        A("len", d, q, *fs)
                        A("high", d, q, *fs)
            gs.append(Group("arith-%s-%d" % (t, part), L, ["OFF"], 10))
        L = []
        for v in list(range(-3, 70)) + [2 ** i + d for i in range(6, 30)
                                        for d in (-1, 0, 1)]:
            L.append("arith %s is_pow2 %d" % (t, v))
            if v >= 0:
                L.append("arith %s log2 %d" % (t, v))
            if v > 0:
                L.append("arith %s ceil2 %d" % (t, v))
            if 0 <= v <= 30:
                L.append("arith %s exp2 %d" % (t, v))
        L += ["arith %s ceil2 %d" % (t, 1 << 30),
              "arith %s is_pow2 %d" % (t, (1 << 31) - 1),
              "arith %s log2 %d" % (t, (1 << 31) - 1)]
        # every small argument
        lim = c.pick(300, 3000)
        for v in range(0, lim):
            L.append("arith %s is_prime %d" % (t, v))
            if v:
                L.append("arith %s sqrt %d" % (t, v))
                for op in ("distinct", "factor", "factors", "coprimes",
                           "divisors", "proper", "proper2"):
                    if v > 1:
                        L.append("arith %s %s %d" % (t, op, v))
        L += ["arith %s divisors 1" % t]
        gs.append(Group("small-%s" % t, L, ["OFF"], 6))
        L = []
        k = c.pick(24, 60)
        for a in range(k):
            for b in range(k):
                if (a * k + b) % c.pick(3, 1) == 0:
                    L += ["arith %s gcd %d %d" % (t, a, b),
                          "arith %s egcd %d %d" % (t, a, b)]
                if b % 2:
                    L.append("arith %s jacobi %d %d %s" % (
                        t, a - 8, b, " ".join(map(str, M.factor(b)))))
                if 0 < b <= a > 1:
                    L += ["arith %s len %d %d" % (t, a, b),
                          "arith %s high %d %d" % (t, a, b)]
        gs.append(Group("pairs-%s" % t, L, ["OFF"], 4))
    models = lambda: c.model(
        "MCArith", "CONSTANT Lim = %d\nINIT Init\nNEXT Next\n"
        "INVARIANT Good\nCHECK_DEADLOCK FALSE\n" % c.pick(60, 300),
        workers=2, timeout=c.pick(300, 3000))
    c.parallel(models, lambda: c.validate("math", gs, "MathTrace", M.CFG, 7))
    c.assumptions += ["arguments in the documented domains; results fit the "
                      "types"]
