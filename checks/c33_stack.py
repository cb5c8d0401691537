from check import *
from _scale import scale

INV, PROPS = ["TypeOK", "Alive"], ["LastInFirstOut"]
OPS = ["new", "push", "pop", "put", "take", "release"]


def consts(caps, vals, kinds='{"own", "plain"}', hold=1, dbg=False):
    return dict(Caps=caps, Vals=vals, Kinds=kinds, MaxHeld=str(hold), Dbg="TRUE" if dbg else "FALSE")


def mcs(tier):
    r = [MC("own", consts("{1,2,3}", "{1,2}", '{"own"}'), INV, PROPS), MC("plain", consts("{1,2,4}", "{1,2,3}", '{"plain"}'), INV, PROPS)]
    if tier == "thorough":
        r += [MC("own2", consts("{3,4}", "{1,2,3}", '{"own"}'), INV, PROPS), MC("plain2", consts("{6}", "{1,2,3}", '{"plain"}'), INV, PROPS)]
    return r


def mcs_dbg(tier):
    return [MC("dbg", consts("{1,2}", "{1,2}", dbg=True), INV, PROPS)]


def session(n, large=0):
    def gen(rng):
        got, size, bias = None, 0, .5
        for k in range(n):
            if k % (500 if large else 60) == 0:
                ids, own, cap = rng.randint(1, 6), rng.random() < .6, large or rng.choice([1, 2, 5, 20])
                held, bias = [0] * (ids + 1), .9 if large else rng.choice([.3, .5, .8])
                got, size, top = (yield {"op": "new", "kind": "own" if own else "plain", "cap": cap, "ids": ids}), 0, None
                continue
            v, r = rng.randint(1, ids), rng.random()
            hs = [x for x in range(1, ids + 1) if held[x]]
            if r < .1 and hs:
                v = rng.choice(hs)
                held[v] -= 1
                got = yield {"op": "release", "v": v}
            elif r < .15 and own and got["size"]:
                held[got["top"]] += 1
                got = yield {"op": "take"}
            elif r < .25 and got["size"]:
                got = yield {"op": "put", "v": v}
            elif rng.random() < bias or not got["size"]:
                keep = own and rng.random() < .3
                held[v] += keep
                got = yield {"op": "push", "v": v, "how": rng.choice(["push", "emplace"]), "keep": keep}
            else:
                got = yield {"op": "pop"}
    return gen


def gens(tier):
    return [("s%d" % j, session(600)) for j in range(40 if tier == "thorough" else 4)] + [("big", session(500, 300))]


CHECK = Check("C33", [Part("Stack", "stack.cpp", mcs, gens, trace_consts=consts("{}", "{}"), trace_invs=INV, need_ops=OPS),
                      Part("Stack", "stack.cpp", mcs_dbg, None, variant="dbg", no_assert=False, trace_consts=consts("{}", "{}", dbg=True), trace_invs=INV, need_ops=OPS), scale("stack")],
              ["one thread; only an element there is is popped or looked at"])
