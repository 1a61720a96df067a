"""Transforms: every kind, over every kind of field."""
from . import mathgen as M
from .core import Group
from .mathgen import F

MODES = ["rand", "rand", "rand", "top", "sparse", "unit"]
FERMAT = [F("u16", "p", 257), F("u32", "p", 257), F("u32", "p", 65537),
          F("u64", "p", 65537), F("u64", "p", 257), F("u128", "p", 65537)]
OTHERS = [F("u32", "p", 7681), F("u16", "p", 97), F("u16", "p", 17),
          F("u32", "p", 998244353), F("u64", "p", M.Q),
          F("u64", "p", M.BIG64[2]), F("u32", "p", 3221225473)]
SMALLN = 32     # for the fields of big elements


def slow(f):
    return f.k == "b" and f.par > 16 or f.k == "p" and f.par > 65537 \
        or f.bits == 128


def ops(r, L, kind, i, inlens, pkt, count):
    """transforms with a transform object"""
    for _ in range(count):
        op = r.choice(["fft", "fft", "ifft", "inv"])
        if kind == "single":
            op = r.choice(["fft", "ifft"])
            mode = "first" if op == "fft" else "const"
            L.append("F fft %s %s %d %d %s" % (
                i, op, inlens[-1], r.randrange(1, 1 << 30), mode))
            continue
        # with buffers the inverse takes short inputs of any length
        il = r.choice(inlens) if op == "fft" else \
            r.randint(1, inlens[-1]) if kind == "radix2" and pkt > 0 \
            and r.random() < 0.6 else inlens[-1]
        L.append("F fft %s %s %d %d %s" % (
            i, op, il, r.randrange(1, 1 << 30), r.choice(MODES)))


def radix2(c, f, n, pkt, count):
    r = c.rng
    # data length: a power of two dividing the length, or none
    dl = r.choice([0] + [1 << i for i in range(n.bit_length())])
    lens = [x for x in [1, 2, 3, dl - 1, dl, n - 1, r.randint(1, n),
                        r.choice([1 << i for i in range(n.bit_length())]), n]
            if 0 < x <= n and (dl == 0 or x <= dl or x & (x - 1) == 0)]
    lens.append(n)
    L = ["F fftnew t radix2 %d %d %d" % (n, dl, pkt)]
    ops(r, L, "radix2", "t", lens, pkt, count)
    return L


def two_power(f):
    h, n = f.order, 1
    while h % 2 == 0:
        h, n = h // 2, n * 2
    return n


def run(c):
    c.build([("math", v) for v in M.SIMD])
    r = c.rng
    gs = []
    q = c.pick(1, 6)

    def group(name, f, lines, variants=M.SIMD, cost=1):
        gs.append(Group(name, [f.line("F")] + lines, variants, cost))

    # radix 2, with and without buffers
    for f in FERMAT + OTHERS + M.LANES:
        top = min(two_power(f), SMALLN if slow(f) and f.k != "l" else 256)
        sizes = [1 << i for i in range(1, top.bit_length())]
        simd = f.par in (257, 65537) and f.bits < 64 or f.k == "l"
        for i in range((10 if simd else 4) * q):
            n = r.choice(sizes)
            if i < len(sizes):
                n = sizes[i]
            # the whole registers and what is left of the packet
            pkt = 0 if i % 3 == 0 else r.choice(
                [1, 2, 3, 4, 8, 16, 17, 24, 33] if n <= 64 else [1, 8, 19])
            cost = n * max(1, pkt) / 500 * (4 if slow(f) else 1)
            group("radix2-%s-%d-%d-%d" % (f, n, pkt, i), f,
                  radix2(c, f, n, pkt, 3 if cost > 3 else 5),
                  M.SIMD if simd else ["OFF", r.choice(["SSE", "AVX"])], cost)
    # the transforms of two and one, and the definition
    for f in M.PRIMES + M.BINARY + M.LANES:
        L = []
        if f.k != "b":
            if f.card != 2:
                for pkt in (0, 1, r.choice([4, 8, 13, 16, 21, 40])):
                    L.append("F fftnew d size2 2 0 %d" % pkt)
                    ops(r, L, "size2", "d", [2], 0, 3)
            for pkt in (0, r.choice([1, 3, 8, 16])):
                n = r.randint(1, 9)
                L.append("F fftnew e single %d 0 %d" % (n, pkt))
                ops(r, L, "single", "e", [n], 0, 2)
        if f.k != "l":
            ds = M.divisors(f, 12 if slow(f) else 40)
            for i in range(2):
                n = r.choice(ds)
                L.append("F fftnew n%d naive %d %d %d" % (
                    i, n, 1 if i == 0 else coprime(r, n),
                    0 if i == 0 else r.choice([1, 3, 8])))
                ops(r, L, "naive", "n%d" % i, [n], 0, 2)
        group("basic-%s" % f, f, L, ["OFF", "AVX"], 2 if slow(f) else 1)
    # mixed lengths
    for f in M.PRIMES + M.BINARY:
        if f.order < 3:
            continue
        ds = [d for d in M.divisors(f, 24 if slow(f) else 260) if d > 1]
        if not ds:
            continue
        for i in range(2 * q):
            n = r.choice(ds[-6:]) if i == 0 else r.choice(ds)
            L = []
            for k in ("ct", "gt"):
                L.append("F fftnew %s %s %d 0 0" % (k, k, n))
                ops(r, L, k, k, [n], 0, 3)
            group("mixed-%s-%d-%d" % (f, n, i), f, L, ["OFF", "AVX"],
                  3 if slow(f) else 1 + n / 60)
    # the recursive transform
    for f in [x for x in M.PRIMES if two_power(x) >= 4]:
        for i in range(q):
            n = 1 << r.randint(1, min(two_power(f), 16 if slow(f) else 128)
                               .bit_length() - 1)
            L = ["F fftnew l large %d %d 0" % (n, r.choice([1, n - 1, 3]))]
            ops(r, L, "large", "l", [n], 0, 3)
            group("large-%s-%d-%d" % (f, n, i), f, L, ["OFF"], 2)
    # the additive one
    for f in M.BINARY:
        for i in range((4 if f.par <= 16 else 2) * q):
            m = r.randint(1, min(f.par, 6 if f.par <= 16 else 4
                                 if f.par < 128 else 3))
            n = 1 << m
            bs = basis(r, f, m) if i % 2 else []
            L = ["F fftnew a add %d %d 0 %s" % (n, 1 if bs else 0,
                                               " ".join(map(str, bs)))]
            ops(r, L, "add", "a", [n] if m < 2 else
                [r.randint(1, n), n], 0, 4)
            for _ in range(2):
                t = r.randint(2, 5)
                k = r.randint(t, 24)
                inv = r.randrange(2)
                L.append("F taylor a %d %d %d %d" % (
                    (k // t) * t if inv else k, t,
                    r.randrange(1, 1 << 30), inv))
            group("add-%s-%d-%d" % (f, n, i), f, L, ["OFF", "AVX"],
                  2 + n / 8 if slow(f) else 1 + n / 32)
    for f in [F("u32", "p", 65537), F("u16", "p", 257), F("u64", "p", M.Q),
              F("u32", "p", 7681), F("u32", "b", 8), F("u32", "b", 16)]:
        L = []
        for _ in range(3):
            n = r.choice(M.divisors(f, 64))
            w = coprime(r, n)
            L.append("F omegas %d %d" % (n, w))
            # kept on disk from one call to the next
            L += ["F omegas %d %d cached" % (n, w)] * 2
        group("omegas-%s" % f, f, L, ["OFF"])

    def models():
        c.model("MCTransform", "CONSTANT MaxN = %d\nINIT Init\nNEXT Next\n"
                "INVARIANT Good\nCHECK_DEADLOCK FALSE\n" % c.pick(9, 24),
                workers=2, timeout=c.pick(300, 3000))
    c.parallel(models, lambda: c.validate("math", gs, "MathTrace", M.CFG, 7))
    c.assumptions += [
        "inputs shorter than the length only for the radix-2 and additive "
        "transforms", "a transform of size one at length n is that of a "
        "constant polynomial"]


def coprime(r, n):
    from math import gcd
    return r.choice([x for x in range(1, n + 1) if gcd(x, n) == 1])


def basis(r, f, m):
    """independent elements"""
    out, red = [], []
    while len(out) < m:
        x = r.getrandbits(f.par)
        y = x
        for b in red:
            y = min(y, y ^ b)
        if y:
            red.append(y)
            red.sort(reverse=True)
            out.append(x)
    return out
