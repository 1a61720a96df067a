"""Polynomials: sequences of operations on a few of them."""
from . import mathgen as M
from .core import Group


def history(r, f, count, top):
    L = [f.line("F")]
    s = lambda: r.randrange(1, 1 << 30)
    P = {}      # name -> [n, degree, leading coefficient is not zero]
    for i in range(2):
        n = r.randint(1, top)
        P["p%d" % i] = [n, -1, False]
        L.append("F poly p%d new %d" % (i, n))
    der = "der_nf4" if f.k == "l" else "der"
    while count > 0:
        count -= 1
        k = r.choice(sorted(P))
        n, d, lead = P[k]
        op = r.choice(["set", "set", "fill", "der", "der", "eval", "eval",
                       "mul", "mul", "mulx", "mulx", "neg", "copy", "new",
                       "zero", "roots"])
        if op == "new":
            n = r.randint(1, top)
            P[k] = [n, -1, False]
            L.append("F poly %s new %d" % (k, n))
        elif op == "copy":
            k2 = r.choice(["p0", "p1", "p2"])
            if k2 in P and r.random() < .6:
                L.append("F poly %s assign %s" % (k2, k))
                P[k2] = list(P[k])
            elif k2 != k:
                L.append("F poly %s copy %s" % (k2, k))
                P[k2] = list(P[k])
        elif op == "set":
            i = r.randrange(n)
            L.append("F poly %s set %d %d nz" % (k, i, s()))
            P[k] = [n, max(d, i), True if i >= d else lead]
        elif op == "fill":
            m = r.choice([n, r.randint(1, n)])
            for i in range(m):
                L.append("F poly %s set %d %d%s" % (
                    k, i, s(), " nz" if i == m - 1 else ""))
            P[k] = [n, max(d, m - 1), True if m - 1 >= d else lead]
        elif op == "roots":     # a product of linear factors
            L += ["F poly %s new %d" % (k, n), "F poly %s set 0 %d nz"
                  % (k, s())]
            m = r.randint(0, n - 1)
            for _ in range(m):
                L.append("F poly %s mulx %d" % (k, s()))
            P[k] = [n, m, True]
        elif op == "zero":
            if r.random() < .3:
                L.append("F poly %s zero" % k)
                P[k] = [n, d, False]
        elif d < 0:
            continue
        elif op == "der":
            L.append("F poly %s %s" % (k, der))
            P[k] = [n, d - 1, False]
        elif op == "eval":
            for _ in range(2):
                L.append("F poly %s eval %d" % (k, s()))
        elif op == "neg":
            L.append("F poly %s neg" % k)
        elif op == "mulx":
            if d + 1 < n and lead:
                L.append("F poly %s mulx %d" % (k, s()))
                P[k] = [n, d + 1, lead]
        elif op == "mul":
            o = r.choice(sorted(P))
            m = min(n, P[o][0])
            deg = r.choice([m - 1, r.randrange(m), min(m - 1, max(
                0, d + P[o][1]))])
            L.append("F poly %s mul %s %d" % (k, o, deg))
            L.append("F poly %s deg %d" % (k, deg))
            P[k] = [n, deg, False]
    return L


def run(c):
    c.build([("math", v) for v in M.SIMD])
    r = c.rng
    gs = []
    for f in M.PRIMES + M.BINARY + M.LANES:
        big = f.k == "b" and f.par > 16 or f.k == "p" and f.par > 65537
        slow = f.k == "b" and f.par > 32
        for part in range(c.pick(2, 12)):
            # exponents beyond the characteristic of the small fields
            top = 5 if slow else 9 if big else \
                r.choice([6, 20, 20, min(2 * f.card, 60)])
            gs.append(Group("poly-%s-%d" % (f, part),
                            history(r, f, c.pick(12 if slow else 30,
                                                 40 if slow else 120), top),
                            ["OFF", "AVX"], 8 if slow else 3))
    # derivatives where the characteristic divides the exponent
    for f in [M.F("u32", "p", 257), M.F("u16", "p", 251),
              M.F("u16", "p", 257)]:
        n = f.par + 6
        L = [f.line("F"), "F poly p new %d" % n]
        for e in (0, 1, f.par - 1, f.par, f.par + 1, f.par + 4):
            L.append("F poly p set %d %d nz" % (e, r.randrange(1 << 29)))
        L += ["F poly p der", "F poly p eval 5"]
        gs.append(Group("char-%s" % f, L, ["OFF", "AVX"], 2))
    models = lambda: c.model(
        "MCPoly", "CONSTANT Deg = %d\nINIT Init\nNEXT Next\n"
        "INVARIANT Good\nCHECK_DEADLOCK FALSE\n" % c.pick(2, 3),
        workers=2, timeout=c.pick(300, 3000))
    c.parallel(models, lambda: c.validate("math", gs, "MathTrace", M.CFG, 7))
    c.assumptions += ["evaluation and derivative of polynomials with a "
                      "degree; after a truncated product the caller sets "
                      "the degree"]
