from _stream import *
from _scale import flow

OPS = ["new", "arrive", "pull", "begin", "tassign", "reply", "commit", "abort", "destroy", "tmove", "tself", "flush", "write"]


def mcs(tier):
    r = [MC("t2", consts("tx", "{2}", "1..3", maxpend=1, maxpull=0), INV, PROPS),
         MC("t3", consts("tx", "{3}", "{2}", maxpend=1, maxpull=0), INV, PROPS)]
    if tier == "thorough":
        r += [MC("t3b", consts("tx", "{1,3}", "{1,3}", maxpend=2, maxpull=1), INV, PROPS),
              MC("t4", consts("tx", "{4}", "{2}", maxpend=2, maxpull=1), INV, PROPS)]
    return r


def mcs_dbg(tier):   # replies that fit: no internal assertion may fire
    return [MC("legal", consts("txlegal", "{2}", "{2}", maxpend=1, maxpull=0), INV, PROPS)]


def gens(tier):
    k = 12 if tier == "thorough" else 1
    return [("t%d-%d" % c, session("tx", *c, 700)) for c in [(1, 1), (2, 3), (3, 2), (4, 4), (6, 9), (9, 5), (16, 16), (31, 12)] * k] + [("big", session("tx", 300, 300, 150))]


def gens_dbg(tier):
    return [("d%d-%d" % c, session("tx", *c, 500, cut=False)) for c in [(2, 1), (3, 3), (6, 4), (16, 9)]]


CHECK = Check("C05", [Part("Stream", "stream.cpp", mcs, gens, trace_consts=TC, trace_invs=INV, need_ops=OPS, chunk=2500, maxlen=80),
                      Part("Stream", "stream.cpp", mcs_dbg, gens_dbg, variant="dbg", trace_consts=TC, trace_invs=INV,
                           need_ops=OPS, chunk=2500, maxlen=80), flow("tx")], ASSUME)
