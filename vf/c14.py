"""Sets of buffers: histories of constructions and operations."""
from . import vecprops as V

MC = """CONSTANTS Depth = %d MaxN = 2
INIT Init
NEXT Next
INVARIANTS NoDangling NoDoubleFree FreedOnce PaddingIsZero Shapes
PROPERTIES WriteSeen CopyIndependent
CHECK_DEADLOCK FALSE
"""
VARS = ["ASAN", "OFF", "AVX", "ASANAVX", "SSE"]


def run(c):
    h = []

    def gen():
        h.extend(V.histories(c, "BufferGen", c.pick(300, 6000), 24, 5))
        h.extend(V.histories(c, "BufferGen", c.pick(20, 400), 80, 5))

    c.parallel(lambda: c.build([("vec", v) for v in VARS]), gen,
               lambda: c.model("MCBuffers", MC % c.pick(3, 4),
                               workers=c.pick(1, 4),
                               timeout=c.pick(300, 1500)))
    gs = V.groups(h, V.BUF, VARS,
                  lambda i: "bufs o " + V.TYPES[i % len(V.TYPES)], "h")
    ops = {}
    for x in h:
        for e in x:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    c.cov["operations"] = ops
    c.validate("vec", gs, "BufferTrace", V.CFG, 8)
    c.assumptions += [
        "a set of buffers does not outlive the memory it shares",
        "padding buffers are not written (but may be zeroed)",
        "maps give each place at most once and, where the result is not "
        "longer than the source, all places",
        "separating needs an even number of buffers; buffers of a set that "
        "owns them are not replaced"]
