from check import *

INV, PROPS = ["TypeOK", "Bounded"], ["Sampled", "Untouched"]
T = lambda *ts: "{" + ", ".join("[p |-> %d, i |-> %d, d |-> %d]" % t for t in ts) + "}"
L = lambda *ls: "{" + ", ".join("[lo |-> %d, hi |-> %d]" % l for l in ls) + "}"


def consts(tunes, limits, ts, ins, sps, advs, dirs, props, wraps, cap, outs="{}"):
    return dict(Tunes=tunes, Limits=limits, Ts=ts, Ins=ins, Sps=sps, Advs=advs, Dirs=dirs, Props=props, Wraps=wraps, CapT=str(cap), Outs=outs)


def mcs(tier):
    r = [MC("pid", consts(T((1, 1, 0), (2, 1, 1)), L((0, 4)), "{1000}", "{0,5}", "{0,3}", "{500}", "{FALSE,TRUE}", "BOOLEAN", "{TRUE}", 2000), INV, PROPS),
         MC("raw", consts(T((1, 1, 0)), L((-2, 2), (4, 4)), "{500,1000}", "{0,2}", "{1}", "{500}", "BOOLEAN", "{TRUE}", "{FALSE}", 1000, "{1}"), INV, PROPS),
         MC("defaults", consts(T((1, 0, 0)), L((0, 255)), "{100}", "{0,5}", "{0,7}", "{99,1}", "{FALSE}", "{TRUE}", "{TRUE}", 101), INV, PROPS),
         MC("same", consts(T((1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2)), L((0, 4)), "{200}", "{}", "{}", "{}", "BOOLEAN", "{TRUE}", "{TRUE}", 1000), INV, PROPS),
         MC("limits", consts(T((1, 1, 0)), L((-2, 2), (1, 3), (-5, -3)), "{1000}", "{0,2}", "{1}", "{1000}", "{FALSE}", "{FALSE}", "{FALSE}", 1000, "{-6,4}"), INV, PROPS)]
    if tier == "thorough":
        r += [MC("pid2", consts(T((1, 1, 0), (2, 1, 1), (0, 3, 2)), L((-4, 9)), "{500,2000}", "{0,2,5,-3}", "{0,3}", "{500,2000}", "BOOLEAN", "BOOLEAN", "{TRUE}", 4000), INV, PROPS),
              MC("raw2", consts(T((1, 2, 1), (0, 1, 0)), L((-2, 4), (1, 3)), "{250,500,1000}", "{0,3}", "{1,4}", "{250,500}", "BOOLEAN", "BOOLEAN", "{FALSE}", 1000, "{7}"), INV, PROPS)]
    return r


TS = [1, 2, 5, 10, 20, 40, 50, 80, 100, 100, 200, 250, 400, 500, 1000, 1000, 2000, 5000, 10000]


def session(n):
    def gen(rng):
        tune = lambda: {"p": rng.choice([0, 1, 2, rng.randint(0, 20)]), "i": rng.choice([0, 1, 3, rng.randint(0, 10)]), "d": rng.choice([0, 0, 1, rng.randint(0, 3)])}
        lim = lambda: (lambda lo: {"lo": lo, "hi": lo + rng.choice([1, 5, 100, 255])})(rng.choice([0, 0, -100, 10, rng.randint(-50, 50)]))

        def new():
            if rng.random() < .15:
                return {"op": "new", "wrap": True, "k": tune(), "onerr": True, "rev": False, "T": 100, "lim": {"lo": 0, "hi": 255}}
            return {"op": "new", "wrap": rng.random() < .6, "k": tune(), "onerr": rng.random() < .5, "rev": rng.random() < .4, "T": rng.choice(TS), "lim": lim()}
        op, left, near = None, 0, 0
        for _ in range(n):
            if left <= 0:
                op = new()
                T, wrap, left, changes = op["T"] if op["wrap"] else 100, op["wrap"], 60, 0
                yield op
                continue
            left -= 1
            r = rng.random()
            if r < .35:
                yield {"op": "adv", "d": rng.choice([T, T, T - 1, T + 1, 2 * T, rng.randint(1, T), rng.randint(0, 30)])}
            elif r < .8:
                near = max(-1000, min(1000, near + rng.choice([0, 1, -1, 2, -5, rng.randint(-60, 60)])))
                yield {"op": "read", "v": near, "ahead": rng.choice([0, 0, 0, T, rng.randint(-5, 20)])}
            elif r < .9:
                yield {"op": "sp", "v": rng.choice([0, near, near + rng.randint(-3, 3), rng.randint(-300, 300)])}
            elif r < .94 or wrap:
                if rng.random() < .1:
                    yield {"op": "bare"}
                yield {"op": "tune", "k": tune(), "onerr": rng.random() < .5}
                if wrap:
                    yield {"op": "same", "k": tune()}
            else:
                o = rng.choice(["limits", "time", "time", "dir", "again"])
                if o == "limits":
                    yield {"op": o, "lim": rng.choice([lim(), {"lo": 3, "hi": 3}])}
                elif o == "time":
                    if changes > 4:
                        continue
                    changes += 1
                    t = rng.choice(TS + [0])
                    T = t or T
                    yield {"op": o, "T": t}
                elif o == "dir":
                    yield {"op": o, "rev": rng.random() < .5}
                else:
                    yield {"op": o, "out": rng.randint(-20, 300)}
    return gen


def gens(tier):
    return [("p%d" % j, session(700)) for j in range(80 if tier == "thorough" else 6)]


CHECK = Check("C18", [Part("Pid", "pid.cpp", mcs, gens, trace_consts=consts("{}", "{}", "{}", "{}", "{}", "{}", "{}", "{}", "{}", 2000000000), trace_invs=["TypeOK"],
                           need_ops=["new", "adv", "sp", "read", "tune", "limits", "time", "dir", "again", "same", "bare"])],
              ["whole-numbered inputs of moderate size, outputs compared to a hundredth; the very first update counts the last one as 100 ms before construction, as the code does"])
