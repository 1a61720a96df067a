"""Properties as text: lists and layouts; decoding with what was read."""
from . import codecgen as G
from . import codecprops as P
from .core import Group

CFG = ("INIT TInit\nNEXT TNext\nVIEW View\nPOSTCONDITION Accepted\n"
       "CHECK_DEADLOCK FALSE\n")
MC = """CONSTANTS Many = %d Size = %d
INIT Init
NEXT Next
INVARIANTS Back Joined IgnoredLines Around Zeros
CHECK_DEADLOCK FALSE
"""
BLANK = " \t\f\v\r"


def position(r):
    return r.choice([0, 1, r.randrange(10), r.randrange(1000),
                     10 ** r.randint(0, 19), 10 ** r.randint(1, 19) - 1,
                     2 ** r.randint(0, 63), 2 ** r.randint(1, 64) - 1,
                     r.randrange(2 ** 32), r.randrange(2 ** 64)])


def marker(r):
    return r.choice([0, 1, 1, 1, 2, r.randrange(256), r.randrange(2 ** 32),
                     2 ** r.randint(0, 32) - 1, 2 ** 31])


def blanks(r, n=3):
    return "".join(r.choice(BLANK) for _ in range(r.choice([0, 0, 1, n])))


def number(r, v):
    return "0" * r.choice([0, 0, 0, 1, 3]) + str(v)


def junk(r):
    x = r.random()
    if x < .3:
        return blanks(r, 4)
    if x < .75:
        body = r.choice(["", " 5 = 6", "5=6", "# x = 1", "=", " a comment",
                         "; 12 = 1", "\t=\t", "-1 = z", "\x80\xff 7"])
        return blanks(r) + r.choice("#;") + body + blanks(r)
    return blanks(r) + "=" + blanks(r) + r.choice(["", "5", "7 = 8", "x"])


def text(r, n):
    L = []
    for _ in range(n):
        while r.random() < .4:
            L.append(junk(r))
        L.append("%s%s%s=%s%s%s" % (
            blanks(r), number(r, position(r)), blanks(r), blanks(r),
            number(r, marker(r)), blanks(r)))
    while r.random() < .4:
        L.append(junk(r))
    return "\n".join(L) + r.choice(["\n", "\n", "\n\n", ""])


def hx(t):
    return t.encode("latin1").hex()


def lists(r, count):
    L = ["props new p"]
    names = ["p", "q", "s"]
    for _ in range(count):
        n, m = r.choice(names), r.choice(names)
        op = r.choice(["add"] * 6 + ["write"] * 2 + ["round", "round",
                      "read", "read", "sort", "copy", "at", "at", "at",
                      "clear", "new"])
        if op == "add":
            for _ in range(r.choice([1, 1, 3, 8])):
                L.append("props add %s %d %d" % (n, position(r), marker(r)))
        elif op == "read":
            L.append("props read %s %s" % (n, hx(text(r, r.randint(0, 6)))))
        elif op == "round":
            if r.random() < .7:
                L.append("props new " + m)
            if m != n:
                L.append("props round %s %s" % (n, m))
        elif op == "copy":
            L.append("props copy %s %s" % (n, m))
        elif op == "at":
            L.append("props at %s %d %d" % (n, r.choice([0, 0, 1, 2, 5]),
                                            position(r)))
        else:
            L.append("props %s %s" % (op, n))
            if op == "sort":
                L.append("props at %s 0 %d" % (n, position(r)))
    return L


def run(c):
    r = c.rng
    gs = []
    # every number of digits
    L = ["props new p"]
    for i in range(20):
        for v in {10 ** i, 10 ** i - 1, min(10 ** (i + 1) - 1, 2 ** 64 - 1)}:
            L.append("props add p %d %d" % (v, min(v, 2 ** 32 - 1)))
    L += ["props write p", "props round p q", "props sort p",
          "props write p", "props round q q2", "props round q2 q2b"]
    gs.append(Group("digits", L, ["OFF"], 2))
    # every kind of blank and of ignored line at every place
    L = []
    for b in BLANK:
        for k in range(4):
            w = ["", "", "", ""]
            w[k] = b * r.choice([1, 2])
            L += ["props new p",
                  "props read p " + hx("%s12%s=%s3%s\n" % tuple(w))]
        for ln in (b, b + "#", b + "; 1 = 2", b + "= 5", b + "=" + b):
            L += ["props new p", "props read p " + hx(
                r.choice(["%s\n1 = 2\n", "1 = 2\n%s\n", "1=2\n%s\n3=4",
                          "1=2\n%s"]) % ln)]
    L += ["props read p", "props read p 0a", "props read p 0a0a",
          "props read p " + hx("1=2"), "props write p"]
    gs.append(Group("blanks", L, ["OFF"], 2))
    # a long one
    L = ["props new p"] + ["props add p %d %d" % (position(r), marker(r))
                           for _ in range(c.pick(60, 200))]
    gs.append(Group("long", L + ["props write p", "props round p q",
                                 "props sort q", "props write q"],
                    ["OFF"], 4))
    for i in range(c.pick(120, 1500)):
        gs.append(Group("lists-%d" % i, lists(r, 30), ["OFF"], 1))

    # decoding with the properties that were read
    cs = []
    kinds = ["fnts", "fntn", "nf4"]
    for i in range(c.pick(90, 700)):
        co = G.rcodec(r, kinds[i % 3], 12)
        nw = G.words(r, co.pkt, 120)
        L = [co.line("c")] + G.data_lines(r, "d", co, nw)
        L += G.special_pokes(r, "d", co, nw, r.choice([1, 4, 10]))
        aps = G.apis(co.kind)
        L += ["show d", "enc c d o %s %s" % (r.choice(aps), "1" * co.nout)]
        for _ in range(3):
            L.append("dec c o %s %s %s text %d %d" % (
                r.choice(aps), G.erasure(r, co), G.wanted(r, co.k),
                r.choice([0, 0, 1, 3]), r.randint(0, 1)))
        cs.append(Group(P.name(co, i), L, P.VARS[(i // 3) % 3], 3))

    c.parallel(
        lambda: c.build([("vec", "OFF")]
                        + [("codec", v) for v in P.VARS]),
        lambda: c.model("MCProps", MC % c.pick((2, 5), (3, 7)), workers=2,
                        timeout=c.pick(300, 3000)))
    c.parallel(lambda: c.validate("vec", gs, "PropsTrace", CFG, 4),
               lambda: c.validate("codec", cs, "CodecTrace", P.cfg("rec"),
                                  4))
    c.assumptions += ["texts of ignored lines, lines without a key and lines "
                      "that give a decimal number to a decimal number"]
