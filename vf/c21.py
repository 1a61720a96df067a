"""Dumps: numbers, memory, and the elements of containers."""
from .core import Group

CFG = "INIT TInit\nNEXT TNext\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
MC = """CONSTANTS Most = %d Longest = %d
INIT Init
NEXT Next
INVARIANTS Exact Hex
CHECK_DEADLOCK FALSE
"""
BITS = {"u16": 16, "u32": 32, "u64": 64, "u128": 128}
TOP = {"u16": 65520, "u32": 4294967290, "u64": 2 ** 64 - 1,
       "u128": 2 ** 128 - 1}


def number(r, top):
    bits = top.bit_length()
    x = r.choice([0, 1, 9, 10, r.randrange(100), top, top - r.randrange(10),
                  r.randrange(top + 1), r.randrange(top + 1),
                  r.randrange(1 << r.randint(1, bits)),
                  10 ** r.randint(0, len(str(top)) - 1),
                  10 ** r.randint(1, len(str(top)) - 1) - 1,
                  (1 << r.randint(0, bits)) - r.randint(0, 1),
                  r.randint(1, 9) * 10 ** r.randint(0, len(str(top)) - 1)
                  + r.randrange(10)])
    return min(x, top)


def memory(r, n):
    k = r.random()
    if k < .4:
        b = bytes(r.randrange(256) for _ in range(n))
    elif k < .7:
        b = bytes(r.choice([0, 10, 31, 32, 33, 126, 127, 128, 255])
                  for _ in range(n))
    elif k < .9:
        b = bytes(r.randint(32, 126) for _ in range(n))
    else:
        b = bytes([r.randrange(256)]) * n
    return b.hex() or "-"


def run(c):
    r = c.rng
    gs = []
    top = 2 ** 128 - 1
    L = []
    for i in range(39):
        for v in {10 ** i, 10 ** i - 1, min(10 ** (i + 1) - 1, top),
                  r.randint(1, 3) * 10 ** i}:
            L.append("dump num %d u 99" % min(v, top))
            if v < 2 ** 127:
                L.append("dump num %s%d s 99" % (
                    r.choice(["", "-"]) if v else "", v))
    for i in range(129):
        L.append("dump num %d u 99" % min(1 << i, top))
        if i < 127:
            L += ["dump num %d s 99" % ((1 << i) - 1),
                  "dump num -%d s 99" % (1 << i)]
    for _ in range(c.pick(200, 3000)):
        v = number(r, top)
        cap = r.choice([99, 99, 99, len(str(v)), len(str(v)) - 1,
                        len(str(v)) + 1, r.randrange(12)])
        s = r.choice("us")
        v = v >> 1 if s == "s" else v
        L.append("dump num %s%d %s %d" % (
            "-" if s == "s" and v and r.random() < .6 else "", v, s, cap))
    for i in range(0, len(L), 60):
        gs.append(Group("numbers-%d" % i, L[i:i + 60], ["OFF"], 2))

    L = ["dump null 0 0", "dump null 64 1", "dump null 5 0"]
    ns = list(range(0, c.pick(101, 300)))
    for n in ns + [r.randrange(300, 3000) for _ in range(c.pick(4, 40))]:
        for ch in (0, 1):
            L.append("dump hex %s %d %s %d" % (
                memory(r, n), ch, r.choice(["hex", "dec", "dec", "oct"]),
                r.choice([32, 32, 48, 42, 46])))
        if n % 3 == 0 or n % 32 in (0, 1, 31):
            L.append("dump chex %s" % memory(r, n))
    L.append("dump hex %s 0 dec 32" % bytes(range(256)).hex())
    L.append("dump chex %s" % bytes(range(256)).hex())
    for i in range(0, len(L), 20):
        gs.append(Group("memory-%d" % i, L[i:i + 20], ["OFF"], 4))

    for t in BITS:
        L = []
        for what in ("bufs", "vec", "mat", "poly"):
            for _ in range(c.pick(12, 150)):
                n = r.choice([1, 1, 2, 3, r.randint(1, 12)])
                m = r.choice([1, 2, 3, r.randint(1, 12), r.randint(1, 40)])
                if what == "bufs" and r.random() < .2:
                    n, m = r.choice([(n, 0), (0, m), (0, 0)])
                z = r.choice([0, 0, .3, 1])
                v = [0 if r.random() < z else
                     number(r, TOP[t]) for _ in range(n * m)]
                L.append("dump %s %s %d %d %s" % (what, t, n, m,
                                                  " ".join(map(str, v))))
        r.shuffle(L)
        for i in range(0, len(L), 12):
            gs.append(Group("%s-%d" % (t, i), L[i:i + 12], ["OFF"], 3))

    c.parallel(lambda: c.build([("vec", "OFF")]),
               lambda: c.model("MCDump", MC % c.pick((150, 67), (3000, 131)),
                               workers=2))
    c.validate("vec", gs, "DumpTrace", CFG, 6)
    c.assumptions += [
        "a stream's state is the base and the fill; uppercase letters, "
        "shown bases and left adjustment are not asked for",
        "the C locale", "containers: the numerals, whatever is between them"]
