"""Histories of buffers and of vectors, as scripts."""
from .core import Group

CFG = ("INIT TInit\nNEXT TNext\nVIEW View2\nPOSTCONDITION Accepted\n"
       "CHECK_DEADLOCK FALSE\n")
GEN = """CONSTANTS Depth = %d MaxN = %d Tries = 40
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
"""
TYPES = ["u16", "u32", "u64", "u128"]

# the arguments of each operation on buffers, in the order of the script
BUF = {"new": "a n size x", "wrap": "a n size x", "dup": "a b n",
       "clone": "a b", "assign": "a b", "slice": "a b i j", "cat": "a b b2",
       "shuf": "a b n map", "fill": "a i x", "zero": "a", "poke": "a i j x",
       "put": "a i x", "copy": "a b", "swap": "a i j", "sep": "a",
       "sep2": "a b b2", "set": "a i x", "eq": "a b", "cast": "a",
       "drop": "a"}

# those on vectors
VEC = {"new": "a x y", "lit": "a x y z", "wrap": "a x y", "dup": "a b",
       "move": "a b", "assign": "a b", "massign": "a b", "vswap": "a b",
       "setmem": "a x", "drop": "a", "slice": "a b x y", "smap": "a x",
       "view": "a b x y z", "vmap": "a x y", "vlen": "a x", "vvec": "a b",
       "ext": "a b x", "set": "a x y", "zero": "a", "fill": "a x",
       "scale": "a x", "beta": "a x", "had": "a b", "add": "a b",
       "mut": "a b", "addo": "a b x", "muto": "a b x", "mutl": "a b x y",
       "copy": "a b", "copyn": "a b x", "copyo": "a b x y",
       "copyf": "a b x y z", "neg": "a", "sort": "a", "swap": "a x y",
       "rand": "a", "eq": "a b"}


def line(args, e):
    L = [e["op"]]
    for k in args[e["op"]].split():
        v = e[k]
        L += [str(x) for x in v] if isinstance(v, list) else [str(v)]
    return " ".join(L)


def histories(c, module, num, depth, maxn):
    return c.generate(module, GEN % (depth, maxn), extra=[
        "-simulate", "num=%d" % num, "-depth", str(depth + 2),
        "-seed", str(c.seed)])


def groups(hists, args, variants, first, tag):
    gs = []
    for i, h in enumerate(hists):
        L = [first(i)] + ["o " + line(args, e) for e in h]
        gs.append(Group("%s-%d" % (tag, i), L,
                        variants[i // len(TYPES) % len(variants)],
                        len(h) / 10))
    return gs
