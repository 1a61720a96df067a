from . import mathgen as M
from .core import Group

SLOW = {64, 128}


def field_lines(c, f, n):
    """element-wise operations of one field"""
    r = c.rng
    s = lambda: r.randrange(1, 1 << 30)
    L = [f.line("F", r.random() < .3)]
    for op in ("add", "sub", "neg", "mul", "div", "inv", "exp", "replicate"):
        L.append("F op %s %d %d" % (op, n, s()))
    if f.k == "b":
        top = f.order
        L.append("F opx check " + " ".join("%d 0" % x for x in (
            0, 1, top, top // 2) + ((top + 1, top + 2, (1 << f.bits) - 1)
                                    if f.par < f.bits else ())))
    if f.k == "p":
        for op in ("inv_bezout", "inv_exp"):
            L.append("F op %s %d %d" % (op, n // 2 + 1, s()))
        L.append("F op check %d %d" % (n, s()))
    L.append("F op invn %d %d" % (n // 2 + 1, s()))
    if f.k != "l":
        L.append("F op exp_quick %d %d" % (n // 2 + 1, s()))
        top = f.order
        L.append("F opx exp_naive " + " ".join(
            "%d %d" % (r.randint(0, top), min(top, r.randint(0, 40)))
            for _ in range(3)))
        pairs = [(0, 0), (0, 1), (1, 0), (1, top), (top, 0), (top, 1),
                 (top, top), (0, top)]
        for op in ("add", "sub", "mul", "exp"):
            L.append("F opx %s " % op + " ".join("%d %d" % p for p in pairs))
        L.append("F opx div " + " ".join(
            "%d %d" % p for p in pairs if p[1]))
    else:
        lane = [0, 1, 65535, 65536]
        def w():
            return sum(r.choice(lane) << (32 * i) for i in range(f.par))
        for op in ("add", "sub", "mul"):
            L.append("F opx %s " % op + " ".join(
                "%d %d" % (w(), w()) for _ in range(6)))
        L.append("F pack %d %d" % (n, s()))
        L.append("F op log 1 %d" % s())
    if f.k != "l" and f.order <= 65536:
        # logarithms: random, and of a base with many powers
        L.append("F op log 2 %d" % s())
        base = [3, 2, 5, 7, 6, r.randint(1, f.order)]
        b = [x for x in base if 0 < x <= f.order][:4]
        L.append("F opx log " + " ".join(
            "%d %d" % (x, r.randint(1, f.order)) for x in b))
        L.append("F opx log_naive " + " ".join(
            "%d %d" % (x, r.choice([1, f.order, r.randint(1, f.order)]))
            for x in b[:2]))
        if f.k == "p" and f.order < 8000:
            L.append("F op qr 6 %d" % s())
    return L


def tables(c, f, rows):
    r = c.rng
    L = [f.line("F")]
    for op in ("neg", "inv"):
        L.append("F all %s" % op)
    if f.k == "p":
        L.append("F all inv_exp")
        if f.order < 300:
            L.append("F all qr")
    for op in ("add", "sub", "mul", "div", "exp"):
        for a in r.sample(range(f.card), min(rows, f.card)):
            L.append("F row %s %d" % (op, a))
    return L


def buffers(c, f, count):
    r = c.rng
    s = lambda: r.randrange(1, 1 << 30)
    L = [f.line("F", r.random() < .4)]
    for _ in range(count):
        n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32,
                      33, 47, 63, 64, 65, r.randint(0, 150)])
        op = r.choice(["mul_coef", "add", "sub", "neg", "had"]
                      if f.k != "b" else ["had"])
        L.append("F buf %s %d %d%s" % (
            op, n, s(), " in" if op in ("mul_coef", "sub")
            and r.random() < 0.4 else ""))
    for _ in range(0 if f.k == "b" else count // 3):
        op = r.choice(["mulvec", "addv", "subv", "negv"]
                      if f.k == "p" else ["addv", "subv", "negv"])
        L.append("F bufs %s %d %d %d" % (
            op, r.randint(1, 5), r.choice([1, 3, 8, 16, 17, 32, 40, 71]),
            s()))
    return L


def run(c):
    c.build([("math", v) for v in M.SIMD])
    r = c.rng
    gs = []
    n = c.pick(12, 60)
    for f in M.PRIMES + M.BINARY + M.LANES:
        slow = f.k == "b" and f.par in SLOW
        gs.append(Group("ops-%s" % f,
                        field_lines(c, f, max(4, n // (3 if slow else 1))),
                        ["OFF", "AVX"], 3))
    small = [f for f in M.PRIMES + M.BINARY
             if f.card <= 257]
    for f in small:
        gs.append(Group("tables-%s" % f,
                        tables(c, f, c.pick(6, 257)), ["OFF", "SSE"],
                        c.pick(2, 20)))
    for i in range(c.pick(2, 12)):
        for f in M.PRIMES + M.BINARY + M.LANES:
            fast = f.par in (257, 65537) or f.k == "l"
            if not fast and i > c.pick(0, 2):
                continue
            slow = f.k == "b" and f.par in SLOW
            gs.append(Group("bufs-%s-%d" % (f, i),
                            buffers(c, f, c.pick(14, 40) if fast
                                    else 3 if slow else 5),
                            M.SIMD, 3 if fast else 2))

    gs += [Group("rand-%s" % f, [f.line("F", i % 2), "F rand 40"], ["OFF"])
           for i, f in enumerate(M.PRIMES + M.BINARY + M.LANES) if f.card > 2]

    def models():
        c.model("MCField", "CONSTANT Deep = %d\nINIT Init\nNEXT Next\n"
                "INVARIANT Good\nCHECK_DEADLOCK FALSE\n" % c.pick(7, 31),
                workers=c.pick(2, 4), timeout=c.pick(300, 3000))
    c.parallel(models, lambda: c.validate("math", gs, "MathTrace", M.CFG, 7))
    c.assumptions += ["the inverse, quotient and logarithm of and by zero "
                      "are outside the domain",
                      "element types wide enough for the field"]
