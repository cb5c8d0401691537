from _stream import *
from _scale import flow


def mcs(tier):
    r = [MC("o123", consts("out", "{1}", "1..3", writes="0..2"), INV, PROPS),
         MC("o45", consts("out", "{1}", "{4}", writes="{1,3}"), INV, PROPS)]
    if tier == "thorough":
        r += [MC("o5", consts("out", "{1}", "{5,6}", writes="{1,3}"), INV, PROPS),
              MC("o4c", consts("out", "{1}", "1..4", writes="1..5", outchars="{97,10,13}"), INV, PROPS)]
    return r


def gens(tier):
    k = 12 if tier == "thorough" else 1
    return [("o%d" % c, session("out", 1, c, 700)) for c in [1, 2, 3, 4, 6, 9, 16, 31] * k] + [("big", session("out", 1, 300, 150))]


CHECK = Check("C04", [Part("Stream", "stream.cpp", mcs, gens, trace_consts=TC, trace_invs=INV,
                           need_ops=["new", "write", "flush", "dropl", "dropf"], chunk=2500, maxlen=80), flow("out")], ASSUME)
