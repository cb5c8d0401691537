from check import *

INV, PROPS = ["TypeOK"], ["OnlyByReading", "StaysMinimum", "NotPastMaximum", "Hysteresis"]


def cfgs(ts, hl="{<<3, 1>>, <<2, 2>>}"):
    return ("{[high |-> t[1], low |-> t[2], minon |-> a, maxon |-> b, minoff |-> c, maxoff |-> d] : t \\in %s, a \\in %s, b \\in %s, c \\in %s, d \\in %s}"
            % (hl, ts[0], ts[1], ts[2], ts[3]))


def consts(c, readings, advs, bases="{0}", units="{0}"):
    return dict(Units=units, Cfgs=c, Readings=readings, Advs=advs, Bases=bases)


def mcs(tier):
    r = [MC("limits", consts(cfgs(["{0,2}", "{0,3}", "{0,2}", "{0,4}"]), "0..4", "{1}"), INV, PROPS),
         MC("odd", consts(cfgs(["{3}", "{2}", "{1}", "{1,5}"], "{<<3,1>>}"), "{0,1,2,4}", "{1,2}", "{0,2,4}", "0..4"), INV, PROPS)]
    if tier == "thorough":
        r += [MC("wide", consts(cfgs(["{0,1,3}", "{0,2,5}", "{0,1,4}", "{0,3,6}"]), "0..4", "{1,2}", "{0,1,3}"), INV, PROPS)]
    return r


def session(n):
    def gen(rng):
        def new():
            unit = rng.choice([0, 0, 1, 2, 3, 4])
            t = lambda: rng.choice([0, 0, 1, 2, 10, rng.randint(1, 40)] + [rng.randint(1, 100000)] * (unit == 0))
            lo = rng.randint(-20, 20)
            return {"op": "new", "c": dict(high=lo + rng.choice([0, 1, 2, 30]), low=lo, minon=t(), maxon=t(), minoff=t(), maxoff=t()), "base": rng.randrange(5), "unit": unit}
        c = None
        for _ in range(n):
            if c is None or rng.random() < .03:
                op = new()
                c = op["c"]
            elif rng.random() < .45:
                t = rng.choice([c["minon"], c["maxon"], c["minoff"], c["maxoff"]])
                op = {"op": "adv", "d": max(0, rng.choice([1, t, t - 1, t + 1, rng.randint(0, 20)]))}
            else:
                op = {"op": "read", "v": rng.choice([c["low"] - 1, c["low"], c["low"] + 1, c["high"] - 1, c["high"], c["high"] + 1, rng.randint(-100, 100)])}
            yield op
    return gen


def gens(tier):
    return [("l%d" % j, session(500)) for j in range(60 if tier == "thorough" else 6)]


CHECK = Check("C17", [Part("Latch", "latch.cpp", mcs, gens, trace_consts=consts("{}", "{}", "{}"), trace_invs=INV, need_ops=["new", "adv", "read"])],
              ["the high limit is not below the low one; times are whole milliseconds"])
