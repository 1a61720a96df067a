from . import capiprops as F


def run(c):
    h = []

    def gen():
        h.extend(F.histories(c, c.pick(380, 5000), 14, "Mid"))
        h.extend(F.histories(c, c.pick(40, 400), 25, "Big", 0))
        h.extend(F.all_histories(c, c.pick(3, 4), "Tiny"))

    def models():
        for k, m, s in c.pick([(2, 1, 1), (1, 2, 0)],
                              [(2, 1, 1), (2, 2, 1), (2, 2, 0), (3, 1, 0),
                               (1, 3, 1)]):
            c.model("MCFragmentStore", F.MC % (k, m, s, c.pick(3, 5)),
                    name="MCFragmentStore(%d+%d,%d)" % (k, m, s))

    c.parallel(lambda: c.build([("capi", v) for v in F.VARS]), gen, models)
    gs = F.concretize(c, h, F.VARS)
    c.validate("capi", gs, "FragTrace", F.cfg("rec", "fail", "mem"))
