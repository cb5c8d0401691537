from _stream import *
from _scale import flow


def mcs(tier):
    r = [MC("i123", consts("in", "1..3", "{1}", chars="{97,10,13}", delims="{<<10>>,<<13,10>>}", arrivals="{1,2}"), INV, PROPS),
         MC("i4", consts("in", "{4}", "{1}", arrivals="{1}", maxpend=3, maxpull=2), INV, PROPS)]
    if tier == "thorough":
        r += [MC("i5", consts("in", "{5}", "{1}", arrivals="{1}", maxpend=3, maxpull=3), INV, PROPS),
              MC("i3b", consts("in", "1..3", "{1}", chars="{97,10,0}", delims="{<<0>>,<<10>>}", arrivals="{1,3}", maxpend=4), INV, PROPS)]
    return r


def gens(tier):
    k = 12 if tier == "thorough" else 1
    return [("i%d" % c, session("in", c, 1, 700)) for c in [1, 2, 3, 4, 6, 9, 16, 31] * k] + [("big", session("in", 300, 1, 150))]


CHECK = Check("C03", [Part("Stream", "stream.cpp", mcs, gens, trace_consts=TC, trace_invs=INV,
                           need_ops=["new", "arrive", "pull", "view", "copy", "drop"], chunk=2500, maxlen=80), flow("in")], ASSUME)
