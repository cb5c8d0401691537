from check import *

INV, PROPS = ["TypeOK"], ["LentOnce", "NoneOnlyWhenAllLent", "SetConstant", "HeldSurvive"]
OPS = ["new", "acquire", "copy", "release", "depop", "populate", "move", "self", "destroy", "sweep"]


def consts(sizes, hold, big="{300, 65537}"):
    return dict(Sizes=sizes, MaxHold=str(hold), Big=big)


def mcs(tier):
    r = [MC("n12", consts("{1,2}", 3), INV, PROPS), MC("n3", consts("{3}", 2), INV, PROPS)]
    if tier == "thorough":
        r += [MC("n4", consts("{4}", 1, "{255,256,257,65535,65536,65537}"), INV, PROPS), MC("n3b", consts("{3}", 3, "{2}"), INV, PROPS)]
    return r


def session(size, n):
    def gen(rng):
        got = yield {"op": "new", "n": size, "by": rng.choice(["shared", "raw", "value"])}
        held, inpool, bias, live = [0] * (size + 1), set(range(1, size + 1)), .5, True
        for k in range(n):
            if k % 30 == 0:
                bias = rng.choice([.2, .5, .8])
            hs = [v for v in range(1, size + 1) if held[v]]
            r = rng.random()
            if not live:
                op = {"op": "release", "v": rng.choice(hs)} if hs and r < .9 else {"op": "new", "n": size, "by": rng.choice(["shared", "raw", "value"])}
            elif r < .01:
                op = {"op": rng.choice(["destroy", "move", "move", "self"])}
            elif r < .03 and inpool:
                op = {"op": "depop", "keep": rng.random() < .8}
            elif got["full"] and rng.random() < bias:
                op = {"op": "acquire"}
            elif not got["full"] and [v for v in hs if v not in inpool]:
                op = {"op": "populate", "v": rng.choice([v for v in hs if v not in inpool])}
            elif not got["full"] and r < .3:
                op = {"op": "destroy"}
            elif hs:
                op = {"op": "copy" if rng.random() < .2 else "release", "v": rng.choice(hs)}
            elif got["full"]:
                op = {"op": "acquire"}
            else:
                op = {"op": "destroy"}
            got = yield op
            o = op["op"]
            if o == "new":
                held, inpool, live = [0] * (size + 1), set(range(1, size + 1)), True
            elif o == "acquire" and got["res"]:
                held[got["res"]] += 1
            elif o == "copy":
                held[op["v"]] += 1
            elif o == "release":
                held[op["v"]] -= 1
            elif o == "depop":
                inpool.discard(got["res"])
                held[got["res"]] += op["keep"]
            elif o == "populate":
                inpool.add(op["v"])
            elif o == "destroy":
                live, inpool = False, set()
    return gen


def gens(tier):
    return [("p%d" % c, session(c, 400)) for c in [1, 2, 3, 4, 5, 8, 12] * (10 if tier == "thorough" else 1)]


CHECK = Check("C09", [Part("Pool", "pool.cpp", mcs, gens, trace_consts=consts("{1}", 1), trace_invs=INV, need_ops=OPS, chunk=1500)],
              ["one thread; acquire is only called on a fully populated pool (its documented precondition); copies of a pool are not covered"])
