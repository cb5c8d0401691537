from check import *

INV, PROPS = ["TypeOK"], ["NoLoss", "Strict", "Sticky"]


def consts(bases, advs, ivs, offs, far, units="{0}"):
    return dict(Units=units, Bases=bases, Advs=advs, Ivs=ivs, Offs=offs, Far=str(far))


def mcs(tier):
    r = [MC("small", consts("{0,1,4}", "{1,2,3}", "{1,2,3}", "{0,-2,1}", 8), INV, PROPS),
         MC("uptimes", consts("0..6", "{1,5}", "{1,4}", "{0,-1}", 12, "0..4"), INV, PROPS)]
    if tier == "thorough":
        r += [MC("large", consts("0..6", "{1,2,3,5,8}", "1..9", "-3..3", 40), INV, PROPS)]
    return r


def session(n, big):
    def gen(rng):
        def new():
            kind = rng.choice(["watch", "alarm", "interval", "interval"])
            return {"op": "new", "kind": kind, "iv": 0 if kind == "watch" else rng.choice([1, 2, 7, 100, 1000, rng.randint(1, 10 ** (8 if big else 4))]),
                    "off": rng.choice([0, -1, 5, -50, rng.randint(-1000, 1000)]) if kind == "watch" else 0,
                    "catch": kind == "interval" and rng.random() < .5, "abs": kind != "interval" and rng.random() < .5, "base": rng.randrange(7), "unit": 0 if big else rng.choice([0, 0, 1, 2, 3, 4])}
        op, left = new(), 0
        yield op
        total = 0
        for i in range(n):
            if rng.random() < .03 or total > (10 ** 9 if op["unit"] == 0 else 10 ** 4):
                op, total = new(), 0
                yield op
                continue
            c = [lambda: {"op": "adv", "d": rng.choice([0, 1, 1, 2, op["iv"], max(0, op["iv"] - 1), op["iv"] + 1, 3 * op["iv"] + 1, rng.randint(0, 50)])}]
            if op["kind"] == "watch":
                c += [lambda: {"op": "read", "reset": rng.random() < .4}, lambda: {"op": "reset", "off": rng.choice([0, 0, -3, 4])}]
            elif op["kind"] == "interval":
                c += [lambda: {"op": "check"}] * 2 + [lambda: {"op": "reset", "off": 0}] * (rng.random() < .2)
            else:
                c += [lambda: {"op": "check"}]
            o = rng.choice(c)()
            total += o.get("d", 0)
            yield o
    return gen


def gens(tier):
    return [("t%d" % j, session(400, j % 2)) for j in range(80 if tier == "thorough" else 8)]


CHECK = Check("C14", [Part("Timer", "timer.cpp", mcs, gens, trace_consts=consts("{0}", "{1}", "{1}", "{0}", 1), trace_invs=INV,
                           need_ops=["new", "adv", "read", "reset", "check"])],
              ["intervals and alarm distances are positive whole milliseconds; uptimes up to 30 years (sampled around powers of two)"])
