"""Matrices."""
from . import codecprops as P
from . import mathgen as M
from .core import Group


def run(c):
    c.build([("math", v) for v in M.SIMD])
    r = c.rng
    gs = []
    s = lambda: r.randrange(1, 1 << 30)
    for f in M.PRIMES + M.BINARY + M.LANES:
        big = f.k == "b" and f.par > 16 or f.k == "p" and f.par > 65537
        slow = f.k == "b" and f.par > 32
        for part in range(c.pick(1, 10)):
            L = [f.line("F")]
            top = 3 if slow else 4 if big else 7
            for _ in range(c.pick(6, 20)):
                L.append("F mat mul %d %d %d" % (r.randint(1, top + 2),
                                                 r.randint(1, top + 2), s()))
            # with pivots to look for, and singular ones
            modes = ["rand", "perm", "sparse", "zero", "sing", "small"]
            for i in range(c.pick(12, 40)):
                mode = modes[i % len(modes)] if i else "rand"
                if f.k == "l":
                    break
                n = r.randint(1, 3) if i < 7 else r.randint(2, top)
                L.append("F mat inv %d %d %d %s" % (n, n, s(), mode))
            card = min(f.card, 4000)
            for _ in range(c.pick(3, 8)):
                if f.k == "l":
                    break
                a, b = r.randint(1, top), r.randint(1, top)
                L.append("F mat vander %d %d 1" % (min(a, card),
                                                   min(b, card)))
            # all small generators
            sizes = [(a, b) for a in range(1, 7) for b in range(1, 7)]
            sizes = r.sample(sizes, c.pick(3 if big else 10,
                                           12 if big else 36))
            if not big:
                sizes += [(r.randint(1, 20), r.randint(1, 20))
                          for _ in range(c.pick(2, 6))]
            for a, b in sizes:
                if f.k == "l":
                    break
                if f.k == "b":
                    if a + b <= card:
                        L.append("F mat cauchy %d %d 1" % (a, b))
                elif 2 * a + b - 2 < card:
                    L.append("F mat cauchy %d %d 1" % (a, b))
                if a + b <= card:
                    L.append("F mat vander_ec %d %d 1" % (a, b))
            gs.append(Group("mat-%s-%d" % (f, part), L, ["OFF", "AVX"],
                            30 if slow else 10 if big else 5))

    def models():
        P.models(c)
    c.parallel(models, lambda: c.validate("math", gs, "MathTrace", M.CFG, 7))
    c.assumptions += ["Cauchy matrices whose points are distinct in the "
                      "field; matrices of NF4 words are only multiplied"]
