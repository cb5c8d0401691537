from _vec import *
from _scale import scale


def mcs(tier):
    r = [MC("c0123", consts("0..3", "{1,2,3}", "FALSE"), INV, PROPS),
         MC("c45", consts("{4,5}", "{1,2}", "FALSE"), INV, PROPS)]
    if tier == "thorough":
        r += [MC("c3v3", consts("1..3", "{1,2,3}", "FALSE", "{0,1,2,3}"), INV, PROPS),
              MC("c5", consts("{4,5}", "{1,2}", "FALSE"), INV, PROPS), MC("c6", consts("{6}", "{1,2}", "FALSE"), INV, PROPS)]
    return r


def gens(tier):
    return [("v%d" % c, session(False, c, 500)) for c in [1, 2, 3, 4, 5, 8, 13, 24] * (10 if tier == "thorough" else 1)] + [("big", session(False, 300, 150, 290))]


CHECK = Check("C06", [Part("Vec", "vector.cpp", mcs, gens, trace_consts=TC, trace_invs=INV, need_ops=OPS, chunk=2000), scale("vector")], ASSUME)
