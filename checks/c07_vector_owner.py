from _vec import *


def mcs(tier):
    r = [MC("c123", consts("1..3", "{1,2}", "TRUE"), INV, PROPS)]
    if tier == "thorough":
        r += [MC("c3v3", consts("{2,3}", "{1,2,3}", "TRUE", "{0,1,2,3}"), INV, PROPS),
              MC("c4", consts("{4}", "{1,2}", "TRUE"), INV, PROPS)]
    return r


def gens(tier):
    return [("o%d" % c, session(True, c, 500)) for c in [1, 2, 3, 4, 5, 8, 13, 24] * (10 if tier == "thorough" else 1)] + [("big", session(True, 300, 150, 290))]


CHECK = Check("C07", [Part("Vec", "vector.cpp", mcs, gens, trace_consts=TC, trace_invs=INV, need_ops=OPS + ["hold", "unhold"],
                           chunk=2000)], ASSUME)
