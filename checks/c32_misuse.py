from check import *

INV, PROPS = ["TypeOK"], ["Harmless"]


def consts(caps, vals, nums):
    return dict(Caps=caps, Vals=vals, Nums=nums)


def mcs(tier):
    r = [MC("small", consts("{0,1,2}", "{7}", "{-1,0,1,43200,43201,86400,86401}"), INV, PROPS)]
    if tier == "thorough":
        r += [MC("more", consts("{3,4}", "{7,8}", "{0,1}"), INV, PROPS)]
    return r


VEC = ["push_back", "emplace_back", "push_front", "emplace_front", "insert", "pop_back", "pop_front", "peek_back", "peek_front", "at", "index", "const_index", "remove"]
RES = ["value", "arrow", "star", "unwrap", "intermediary", "unwrap_intermediary", "error", "unwrap_error"]


def session(n):
    def gen(rng):
        left = 0
        for _ in range(n):
            if not left:
                w, cap, left = rng.choice(["vec"] * 4 + ["pool"] * 3 + ["tx"] * 2 + ["events"] * 2 + ["pipe"]), rng.choice([1, 2, 3, 5, 8, 20]), 60
                got = yield {"op": "new", "w": w, "n": cap}
            left -= 1
            size = len(got["q"])
            if w == "vec":
                op = {"op": "vec", "f": rng.choice(VEC)}
                if op["f"] in VEC[:5]:
                    op["v"] = rng.randint(0, 1000)
                if op["f"] in ("insert", "at", "index", "const_index", "remove"):
                    op["i"] = rng.choice([0, size - 1 if size else 0, size, size + 1, rng.randint(0, cap + 1)])
                if op["f"] == "remove" and size and op["i"] == size:
                    continue
            elif w == "pool":
                op = {"op": "pool", "f": rng.choice(["depopulate", "acquire", "acquire", "populate_raw", "populate_value", "populate_shared"])}
                if op["f"].startswith("pop"):
                    op["v"] = rng.randint(1, 99)
            elif w == "tx":
                op = {"op": "tx", "f": rng.choice(["incoming", "put", "put", "puts", "puts"] + ["commit", "abort", "away"] * (rng.random() < .2))}
                if op["f"] == "puts":
                    op["v"] = rng.randint(0, 8)
            elif w == "events":
                f = rng.choice(["attach", "trigger", "trigger", "schedule", "schedule", "take", "trigger_null", "attach_null", "detach"])
                op = {"op": "ev", "f": f, "v": 0 if f in ("take", "trigger_null", "attach_null", "detach") else rng.randint(0, 3)}
            else:
                op = {"op": "pipe", "f": "push", "v": 1} if size or rng.random() < .7 else {"op": "pipe", "f": "expire"}
            got = yield op
    return gen


def gens(tier):
    return [("m%d" % j, session(900)) for j in range(60 if tier == "thorough" else 4)]


CHECK = Check("C32", [Part("Guard", "guard.cpp", mcs, gens, variant="dbg", no_assert=False, trace_consts=consts("{0}", "{0}", "{0}"), trace_invs=INV,
                           need_ops=["new", "vec", "pool", "res", "data", "tx", "begin", "ev", "handler", "pipe", "once"])],
              ["a debug build whose exception handler ends the failing call; one thread; Vector::remove of the element after the last is left open (it takes the last)"])
