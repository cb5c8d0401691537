from check import *

INV, PROPS = ["TypeOK", "EndsThere", "SmallSteps", "Monotone", "Spaced"], ["Within"]


def consts(sp, incs, ivs):
    return dict(Setpoints=sp, Increments=incs, Intervals=ivs)


def mcs(tier):
    t = tier == "thorough"
    return [MC("coarse", consts("{0,10,32,63,64}", "{1,7,16,27,64,100}", "{0,5,250}"), INV, PROPS),
            MC("fine", consts("0..64" if t else "{0,1,2,3,31,32,33,62,64}", "{-3,0,1,2,3,5,32}", "{1}"), INV, PROPS)]


def session(n):
    def gen(rng):
        while n:
            yield {"op": "new", "how": rng.choice(["own", "own", "platform"])}
            for _ in range(rng.randint(5, 60)):
                k = rng.random()
                if k < .1:
                    d = rng.random() < .3
                    yield {"op": "diginit", "v": False if d else rng.random() < .5, "dflt": d}
                elif k < .2:
                    yield {"op": "digset", "v": rng.random() < .5, "how": rng.choice(["bool", "state"])}
                elif k < .35:
                    yield {"op": "flip"}
                elif k < .37:
                    yield {"op": "sense", "v": rng.random() < .5, "a": rng.randint(0, 64), "trig": rng.randint(0, 3), "call": rng.random() < .5}
                elif k < .38:
                    yield {"op": rng.choice(["anainit", "inputs"])}
                elif k < .5:
                    yield {"op": "set", "v": rng.randint(0, 64)}
                else:
                    yield {"op": "fade", "to": rng.randint(0, 64), "inc": rng.choice([1, 2, 3, 6, rng.randint(1, 70)]), **rng.choice(
                        [{"how": "full", "ms": rng.choice([0, 1, 250, rng.randint(0, 5000)])}] * 3 + [{"how": "pace", "ms": 250}])}
    return lambda rng: (x for _, x in zip(range(n), gen(rng)))


def gens(tier):
    return [("g%d" % j, session(400)) for j in range(40 if tier == "thorough" else 5)]


CHECK = Check("C27", [Part("Gpio", "gpio.cpp", mcs, gens, trace_consts=consts("{}", "{}", "{}"), need_ops=["new", "diginit", "digset", "flip", "set", "fade", "anainit", "inputs", "sense"])],
              ["values are multiples of 1/64, so that the real arithmetic is exact", "the pins of the native platform's own outputs are not observable; their value and time are"])
