from check import *

INV, PROPS = ["TypeOK", "OnlyLimits", "Finite"], ["InsideBandNothing", "Stays", "OneAtATime"]
C = lambda t, h, lo, hi, n, T=100, m=0: "[target |-> %d, hyst |-> %d, lo |-> %d, hi |-> %d, cycles |-> %d, T |-> %d, mode |-> %d]" % (t, h, lo, hi, n, T, m)


def consts(cfgs, ins, runs="{}", dts="{5}", cap=10):
    return dict(Cfgs=cfgs, Ins=ins, Runs=runs, Dts=dts, CapEl=str(cap))


R = "{[c |-> c, vs |-> v, from |-> f] : c \\in {%s, %s}, v \\in UNION {[1..n -> {1,4,6,9}] : n \\in 0..%d}, f \\in {0, 4}}"


def mcs(tier):
    th = tier == "thorough"
    d = 4 if th else 2
    return [MC("relay", consts("{%s}" % ", ".join([C(5, 1, 0, 255, 1, 50, 0), C(5, 0, 10, 20, 2, 100, 1), C(5, -2, -1, 1, 3, 100, 2), C(0, 1, 0, 9, 4, 20, 1)]), "{0,1,3}", dts="{5,9}" if th else "{5}", cap=14 if th else 10), INV, PROPS),
            MC("drive", consts("{}", "{}", R % (C(5, 1, 0, 255, 2, 50, 0), C(5, 0, 10, 20, 3, 100, 1), d)), INV, PROPS),
            MC("patience", consts("{}", "{}", "{[c |-> %s, vs |-> <<>>, from |-> 40]}" % C(5, 1, 0, 255, 1, 50, 0)), INV, PROPS)]


class Relay:
    """follows a run, to state the gains expected at its end (the specification decides whether they are right)"""

    def __init__(s, c):
        s.c, s.on, s.n, s.el, s.th, s.hi, s.lo, s.cyc, s.past = c, True, 0, 0, 0, c["target"], c["target"] + 1000, [], False

    def step(s, v, dt):
        c, h = s.c, abs(s.c["hyst"])
        if s.n >= c["cycles"]:
            s.past = True
            return c["lo"]
        s.el, s.hi, s.lo = s.el + dt, max(s.hi, v), min(s.lo, v)
        if s.on and v > c["target"] + h:
            s.on, s.th, s.el, s.hi = False, s.el, 0, c["target"]
        elif not s.on and v < c["target"] - h:
            s.cyc = (s.cyc if s.n > 2 else []) + [(s.hi - s.lo, s.el + s.th)]
            s.n += 1
            s.on, s.el, s.lo = s.n < c["cycles"], 0, c["target"]
        return c["hi"] if s.on else c["lo"]

    def gains(s, T=None):
        c = s.c
        T = T or c["T"]
        kc, td = [(3, 5), (33, 100), (1, 5)][c["mode"]], (1, 8) if c["mode"] == 0 else (33, 100)
        p = [([8, c["hi"] - c["lo"], kc[0]], [a, kc[1]]) for a, t in s.cyc]
        f = lambda l: [{"n": n, "d": d} for n, d in l]
        return {"p": f(p), "i": f([(n + [2, T], d + [y[1]]) for (n, d), y in zip(p, s.cyc)]),
                "d": f([(n + [td[0], y[1]], d + [td[1], T]) for (n, d), y in zip(p, s.cyc)])}


def drive(c, vs, f):
    h, outs = abs(c["hyst"]), []

    def reading(last):
        return vs[len(outs)] if len(outs) < len(vs) else c["target"] + (h + 1 if last == c["hi"] else -h - 1)
    if f > 0:
        while reading(c["hi"]) < f and len(outs) < 1800:
            outs.append(c["hi"])
        outs.append(c["lo"])
    r, dt = Relay(c), 0
    while r.n < c["cycles"]:
        outs.append(r.step(reading(outs[-1] if outs else c["lo"]), dt))
        dt = c["T"]
    return r.gains(1000)


def session(n):
    def gen(rng):
        c = None
        for _ in range(n):
            if c is None or rng.random() < .03 or (r.n >= c["cycles"] and rng.random() < .3):
                lo = rng.choice([0, 0, -10, 5])
                c = dict(target=rng.randint(-50, 200), hyst=rng.choice([0, 1, 3, -4, 20]), lo=lo, hi=lo + rng.choice([1, 100, 255]), cycles=rng.choice([1, 2, 3, 5, 10]), T=rng.choice([10, 50, 100]), mode=rng.randint(0, 2))
                h = abs(c["hyst"])
                near = lambda: c["target"] + rng.choice([h, -h, h + 1, -h - 1, h + 1, -h - 1, 0, rng.randint(-60, 60)])
                if rng.random() < .3:
                    f = c["target"] - rng.randint(0, 5) if c["target"] > 6 and rng.random() < .5 else 0
                    vs = [near() for _ in range(rng.randint(0, 25))]
                    yield {"op": "auto", "c": c, "vs": vs, "from": f, "want": drive(c, vs, f)}
                    c = None
                    continue
                r = Relay(c)
                yield {"op": "start", "c": c}
                continue
            if r.n >= c["cycles"] and not r.past and rng.random() < .8:
                yield {"op": "gains", "want": r.gains()}
                continue
            v, dt = near(), rng.choice([7, 7, 1, 100, rng.randint(1, 500)])
            r.step(v, dt)
            yield {"op": "tune", "v": v, "dt": dt}
    return gen


def gens(tier):
    return [("a%d" % j, session(400)) for j in range(80 if tier == "thorough" else 6)]


CHECK = Check("C19", [Part("Tuner", "tuner.cpp", mcs, gens, trace_consts=consts("{}", "{}"), trace_invs=INV, need_ops=["start", "tune", "gains", "auto"])],
              ["at least one cycle, whose readings leave the band on both sides at different moments; the cycle count and the gains when called on after finishing are outside this property",
               "gains are compared with a relative tolerance of 2e-5"])
