"""Code lengths, orders and roots of unity."""
from . import mathgen as M
from .core import Group


def run(c):
    c.build([("math", v) for v in M.SIMD])
    r = c.rng
    gs = []
    full = c.pick(2000, 70000)
    for f in M.PRIMES + M.BINARY + M.LANES:
        slow = f.k == "b" and f.par in (64, 128)
        fs = M.order_factors(f)
        L = [f.line("F")]

        def add(op, xs):
            xs = list(xs)
            for i in range(0, len(xs), 64):
                L.append("F ord %s %s" % (op, " ".join(map(str,
                                                           xs[i:i + 64]))))
        alld = M.divisors(f, f.order)

        def steps(n):       # of the library's search, one by one
            lo = max(d for d in alld if d <= n)
            hi = min(d for d in alld if d >= n)
            if n * n > f.order:
                return f.order // n - f.order // hi
            return min(hi, int(f.order ** .5)) - n + n - lo
        # requested lengths: around the divisors, and small ones
        if f.order <= full and f.order < 70000:
            req = range(1, f.order + 1)
        else:
            req = set(range(1, c.pick(40, 600)))
            for _ in range(c.pick(30, 400)):
                d = M.rand_divisor(r, f)
                req |= {x for x in (d - 1, d, d + 1) if 1 <= x <= f.order}
            req |= {f.order, f.order - 1} if f.order > 1 else {f.order}
            req |= {r.randint(1, f.order) for _ in range(c.pick(6, 60))}
            req = sorted(req)
        if f.k == "l":
            req = [x for x in req if x <= 65536]
        if f.k == "l" and f.par > 1 or f.card == 2:
            req = []        # the codes ask the field of the lanes
        if len(req):
            nd = 1
            for p in set(fs):
                nd *= fs.count(p) + 1
            lim = c.pick(130 if slow else 300, 4000)
            lim = max(4, min(lim, c.pick(30000, 1000000) // nd))
            req = list(req)
            a = req if len(req) <= lim else sorted(r.sample(req, lim))
            add("len", [n for n in a if steps(n) < 300000])
            add("high", a)
        # roots of unity of every order
        ds = M.divisors(f, f.order) if len(fs) < 18 else \
            M.divisors(f, f.order if f.order < 1 << 17 else 1 << 20)
        k = c.pick(1 if slow else 20, 20 if slow else 400)
        if len(ds) > k:
            ds = sorted(set(r.sample(ds, k)) | ({f.order} if slow else {1, fs[0], f.order}))
        add("nth", ds)
        if f.k != "l":
            add("prim", [1])
            small = f.order <= 300
            els = range(1, f.card) if small else \
                [1, 2, 3, f.order, f.order - 1] + \
                [r.randint(1, f.order) for _ in range(c.pick(4, 40))]
            els = sorted({x for x in els if 0 < x < f.card})
            if slow:
                els = [f.order] + r.sample(els, c.pick(1, 5))
            add("order", els)
            if f.par == 128 and f.k == "b":
                els = els[:1]
            add("isprim", els)
            add("prim", els)
        gs.append(Group("orders-%s" % f, L, ["OFF", "AVX"],
                        20 if slow else 5))

    def models():
        c.model("MCField", "CONSTANT Deep = %d\nINIT Init\nNEXT Next\n"
                "INVARIANT Good\nCHECK_DEADLOCK FALSE\n" % c.pick(7, 31),
                workers=2, timeout=c.pick(300, 3000))
    c.parallel(models, lambda: c.validate("math", gs, "MathTrace", M.CFG, 7))
    c.assumptions += ["orders of non-zero elements; roots of unity of orders "
                      "that divide the field's"]
