"""Scripts over the C API."""
from . import codecgen as G
from .core import Group

VARS = ["OFF", "SSE", "AVX"]


def cfg(*aspects):
    return ("CONSTANT A = {%s}\nINIT TInit\nNEXT TNext\nVIEW View\n"
            "POSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
            % ", ".join('"%s"' % a for a in aspects))


MC = """CONSTANTS A <- All K = %d M = %d Sys = %d Budget = %d
INIT MCInit
NEXT MCNext
INVARIANTS Sound Live Refuses
CHECK_DEADLOCK FALSE
"""
MCH = """CONSTANTS MaxNd = %d MaxLen = %d
INIT Init
NEXT Next
INVARIANTS RoundTrip Inside Rejected OnlyCount Canonical
CHECK_DEADLOCK FALSE
"""
GEN = """CONSTANTS Depth = %d Shapes <- %s Slack = %d
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
"""


def histories(c, num, depth, shapes, slack=1):
    return c.generate("FragmentGen", GEN % (depth, shapes, slack), extra=[
        "-simulate", "num=%d" % num, "-depth", str(depth + 2),
        "-seed", str(c.seed)])


def all_histories(c, depth, shapes, slack=1):
    return c.generate("FragmentGen", GEN % (depth, shapes, slack), workers=1)


def blocksize(r, ws, big=0.04):
    x = r.random()
    if x < big / 3:     # more than 2^16 words
        return ws * (65536 + r.choice([0, 1, 2, 700, 5000]))
    if x < big:
        return 65536 + ws * r.randint(-2, 40)
    if x < 0.25:
        return ws * (1024 * r.choice([1, 1, 2, 3]) + r.choice([-1, 0, 0, 1]))
    if x < 0.3:
        return 0
    return ws * r.choice([1, 2, 3, 7, 8, 16, 31, 33, 64, 100, 250])


def codec(sys, ws, k, m):
    return G.Codec("fnts" if sys else "fntn", 32, ws, k, m, 1024)


def data(r, name, co, bs, special=True, full=None):
    """full: the output to be given exactly that many special symbols"""
    nw = bs // co.ws
    if co.ws == 1 and bs > 600:         # otherwise it does not fit
        mode = r.choice(["zero", "sparse"])
    elif nw > 200:
        mode = r.choice(["rnd", "rnd", "zero", "sparse"])
    else:
        mode = None
    lines = G.data_lines(r, name, co, nw, mode)
    if full and nw and co.k > 1:
        lines = G.data_lines(r, name, co, nw, "zero")
        o = r.randrange(co.nout)
        for w in r.sample(range(nw), min(nw, full)):
            v = None
            while v is None:
                v = G.special_column(r, co, [o])
            for j, x in enumerate(v):
                lines.append("poke %s %d %d %s" % (
                    name, j, w * co.ws, x.to_bytes(co.ws, "little").hex()))
    elif special:
        lines += G.special_pokes(r, name, co, nw, r.choice([0, 1, 3, 8]))
    return lines + ["show " + name]


def concretize(c, hists, variants, tag="h"):
    r = c.rng
    gs = []
    for n, h in enumerate(hists):
        k, m, sys = h["k"], h["m"], h["sys"]
        ws = r.choice([1, 2, 2])
        if not G.legal("fnts", ws, k, m):
            continue
        co = codec(sys, ws, k, m)
        bs = blocksize(r, ws)
        lines = ["inst i %d %d %d %d" % (ws, k, m, sys),
                 "inst j %d %d %d %d" % (ws, k, m, sys * r.choice([1, 1, 7]))]
        lines += data(r, "d", co, bs, full=r.choice([None] * 6 + [13, 14]))
        lines.append("enc i d s %s %d" % ("1" * co.nout, r.choice([0, 1])))
        ops = []
        for op in h["ops"]:
            i = r.choice("ij")
            pl, nl = r.choice([0, 1]), r.randint(0, 1)
            if op["op"] in ("lose", "find"):
                ops.append("%s s %d" % (op["op"], op["i"] - 1))
            elif op["op"] == "corrupt":
                ops.append("corrupt s %d %s" % (op["i"] - 1, r.choice(
                    ["magic", "count", "max", "wrap", "one"])))
            elif op["op"] == "rec":
                ops.append("rec %s s %d %d %d" % (i, op["i"] - 1, pl, nl))
            elif op["op"] == "dec":
                ops.append("dec %s s %d %d %d" % (i, pl, nl, op["keep"]))
        gs.append(Group("%s-%d-%d-%d-ws%d-bs%d-%d" % (tag, k, m, sys, ws, bs,
                                                      n),
                        lines + ops, variants[n % len(variants)],
                        3 + bs / 10000))
    return gs


def partial(c, count, variants):
    """encodings of which only some outputs are wanted"""
    r = c.rng
    gs = []
    for i in range(count):
        sys, ws = i % 2, r.choice([1, 2, 2])
        k, m = r.randint(1, 7), r.randint(1, 6)
        co = codec(sys, ws, k, m)
        bs = blocksize(r, ws)
        lines = ["inst i %d %d %d %d" % (ws, k, m, sys)]
        lines += data(r, "d", co, bs)
        for j in range(4):
            w = G.bits(co.nout, [r.randrange(co.nout)]) if j == 0 \
                else G.wanted(r, co.nout, 0)
            lines.append("enc i d s%d %s %d %d" % (
                j, w, r.choice([0, 1]), r.randint(0, 1)))
        gs.append(Group("part-%d-%d-%d-%d-%d-%d" % (sys, ws, k, m, bs, i),
                        lines, variants[i % len(variants)], 2 + bs / 10000))
    return gs
