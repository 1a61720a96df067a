"""Vectors and their views: histories; packing."""
import random
from . import vecprops as V
from .core import Group

MC = """CONSTANTS Depth = %d P = 5
INIT Init
NEXT Next
INVARIANTS NoDangling Inside Owners ZeroBeyond SliceOfBase InField
PROPERTIES WriteSeen Frame CopyIndependent
CHECK_DEADLOCK FALSE
"""
VARS = ["ASAN", "OFF", "AVX", "ASANAVX", "SSE"]
PRIMES = {"u16": [257, 13, 7], "u32": [65537, 257, 17],
          "u64": [65537, 257, 11], "u128": [257, 65537, 5]}


def run(c):
    h = []

    def gen():
        h.extend(V.histories(c, "VectorGen", c.pick(300, 6000), 24, 6))
        h.extend(V.histories(c, "VectorGen", c.pick(20, 400), 90, 6))
        h.extend(V.histories(c, "VectorGen", c.pick(30, 300), 20, 40))

    c.parallel(lambda: c.build([("vec", v) for v in VARS]), gen,
               lambda: c.model("MCVectors", MC % c.pick(3, 4),
                               workers=c.pick(1, 4),
                               timeout=c.pick(300, 1500)))

    def first(i):
        t = V.TYPES[i % len(V.TYPES)]
        ps = PRIMES[t]
        return "vecs o %s %d" % (t, ps[i // 7 % len(ps)])

    gs = V.groups(h, V.VEC, VARS, first, "h")
    r = random.Random(c.seed)
    k = 0
    for t, w in zip(V.TYPES, (2, 4, 8, 16)):
        for ws in (1, 2, 4, 8, 16):
            if ws <= w:
                for v in VARS:
                    L = ["vecs o %s 257" % t]
                    for _ in range(c.pick(3, 20)):
                        nb = r.randint(1, 4)
                        L.append("o pack %d %d %d %d %d" % (
                            nb, r.randint(0, nb),
                            r.choice([0, 1, 2, 7, 16, 17, r.randint(1, 70)]),
                            ws, r.randrange(1 << 30)))
                    gs.append(Group("p-%d" % k, L, v, 2))
                    k += 1
    ops = {}
    for x in h:
        for e in x:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    c.cov["operations"] = ops
    c.validate("vec", gs, "VectorTrace", V.CFG, 8)
    c.assumptions += [
        "memory-level operations (fill, neg, add, copy, sort, swap, products) "
        "are for vectors and slices, not for strided or extended views; "
        "extended vectors are only read",
        "operands are disjoint or the same",
        "a vector is not dropped, moved or given other memory while views "
        "use what it had",
        "views denote positions as of when they were mapped: offsets, steps "
        "and lengths are not negative and lengths are at most the vector's",
        "products of vectors: on memory the library allocated"]
