from check import *
from _scale import scale

OPS = ["new", "push", "pushn", "pop", "pop0", "popn", "peek", "peekp", "dropl", "dropf", "clear"]
INV, PROPS = ["TypeOK", "Accounting"], ["OrderKept", "CapConstant", "OverrunOnlyByRollover"]


def consts(caps, vals, bulk, over):
    return dict(Caps=caps, Vals=vals, Bulk=bulk, MaxOver=over)


def mcs(tier):
    r = [MC("c123", consts("1..3", "{1,2}", "{2,3}", "2"), INV, PROPS),
         MC("c4", consts("{4}", "{1}", "{3,5}", "3"), INV, PROPS)]
    if tier == "thorough":
        r += [MC("c45", consts("{4}", "{1,2}", "{2,5}", "3"), INV, PROPS),
              MC("c56", consts("{5,6,7}", "{1}", "{4,8}", "5"), INV, PROPS)]
    return r


def session(cap, n, big):
    def gen(rng):
        nxt = 100
        got = yield {"op": "new", "cap": cap}
        for _ in range(n):
            k = rng.random()
            near = rng.choice([0, 1, 2, max(0, got["used"] - 1), got["used"], got["used"] + 1, cap, cap + 1,
                               rng.randint(0, cap + 2)])
            if k < .25:
                nxt += 1
                op = {"op": "push", "v": nxt, "roll": rng.random() < .4}
            elif k < .42:
                m = rng.choice([0, 1, 2, got["free"], got["free"] + 1, rng.randint(0, cap + 3)])
                m = min(m, max(60, big))
                op = {"op": "pushn", "vs": list(range(nxt + 1, nxt + 1 + m)), "roll": rng.random() < .4}
                nxt += m
            elif k < .55:
                op = {"op": rng.choice(["pop", "pop0"])}
            elif k < .68:
                op = {"op": "popn", "n": min(near, max(60, big))}
            elif k < .8:
                op = {"op": rng.choice(["peek", "peekp"]), "i": near}
            elif k < .97:
                op = {"op": rng.choice(["dropl", "dropf"]), "n": near}
            else:
                op = {"op": "clear"}
            got = yield op
    return gen


def gens(tier):
    caps = [1, 2, 3, 4, 5, 7, 8, 13, 16, 31, 32, 40] * (12 if tier == "thorough" else 1)
    # sizes that do not fit in eight bits
    return [("cap%d" % c, session(c, 600, c)) for c in caps] + [("big%d" % c, session(c, 150, c)) for c in [255, 256, 300]]


CHECK = Check("C01", [Part("Ring", "ring.cpp", mcs, gens, trace_consts=consts("{1}", "{1}", "{1}", "1"),
                           trace_invs=INV, need_ops=OPS), scale("ring")],
              ["element type int; one thread"])
