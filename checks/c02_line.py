from check import *
from _scale import flow

OPS = ["new", "push", "pushr", "setdel", "view", "copy", "drop", "pop"]
INV, PROPS = ["TypeOK"], ["Framing", "NoLineNoLoss"]


def consts(caps, chars, delims, writes):
    return dict(Caps=caps, Chars=chars, Delims=delims, Writes=writes)


def mcs(tier):
    r = [MC("c123", consts("1..3", "{97,10,13}", "{<<10>>,<<13,10>>}", "{1,2}"), INV, PROPS),
         MC("c4", consts("{4}", "{97,10}", "{<<10>>}", "{1,3}"), INV, PROPS),
         MC("c5", consts("{5}", "{97,10}", "{<<10>>}", "{1}"), INV, PROPS)]
    if tier == "thorough":
        r += [MC("c4b", consts("{4}", "{97,10,13}", "{<<10>>,<<13,10>>,<<>>}", "{1,3}"), INV, PROPS),
              MC("c67", consts("{6,7}", "{97,10}", "{<<10>>}", "{1}"), INV, PROPS)]
    return r


def session(cap, n):
    def gen(rng):
        dels = [[13, 10], [10], [59, 44], [0], [10, 97], []]
        d = rng.choice(dels[:4])
        got = yield {"op": "new", "cap": cap, "del": d}
        for _ in range(n):
            k = rng.random()
            ch = lambda: rng.choice([97, 98, 99, 122, 32, 0, 255, 10, 13, 59] + (d or [97]) * 2)
            if k < .35:
                m = rng.choice([0, 1, 2, 3, got["free"], got["free"] + 1, rng.randint(0, cap + 1)])
                op = {"op": "push", "vs": [ch() for _ in range(min(m, 50))]}
            elif k < .42:
                op = {"op": "pushr", "v": ch()}
            elif k < .45:
                d = rng.choice(dels)
                op = {"op": "setdel", "del": d}
            elif k < .62:
                op = {"op": "view", "known": rng.random() < .3}
            elif k < .8:
                op = {"op": "copy", "max": rng.choice([0, 1, got["len"], max(0, got["len"] - 1), got["len"] + 1, cap, cap + 5]),
                      "known": rng.random() < .3}
            elif k < .9:
                op = {"op": "drop", "known": rng.random() < .3}
            else:
                op = {"op": "pop"}
            got = yield op
    return gen


def gens(tier):
    caps = [1, 2, 3, 5, 8, 11, 16, 24, 33] * (12 if tier == "thorough" else 1)
    return [("cap%d" % c, session(c, 600)) for c in caps] + [("big%d" % c, session(c, 150)) for c in [256, 300]]


CHECK = Check("C02", [Part("Line", "line.cpp", mcs, gens, trace_consts=consts("{1}", "{1}", "{}", "{1}"),
                           trace_invs=INV, need_ops=OPS), flow("in")],
              ["one thread; the delimiter text outlives the buffer (it is kept as a view)"])
