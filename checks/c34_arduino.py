from check import *

INV, PROPS = ["TypeOK", "Sense", "AsAsked"], ["Order"]
ALL = ["newdigital", "outinit", "outset", "flip", "ininit", "inread", "newanalogue", "anainit", "anaset", "aininit", "ainread", "newirq", "attach", "detach", "irqinit", "edge",
       "newserial", "serialinit", "arrive", "drain", "readone", "readmany", "write", "flush", "newclock", "begin", "wait", "say", "grow", "halt"]


def consts(fams, values="{0,64}", steps="{500,1500}", rooms="{0,2}", timeouts="{3}", bytes_="{0,255}", lens="{0,1,3}"):
    return dict(Families=fams, Values=values, Steps=steps, Rooms=rooms, Timeouts=timeouts, Bytes=bytes_, Lens=lens)


def mcs(tier):
    big = tier == "thorough"
    return [MC("digital", consts('{"digital"}'), INV, PROPS), MC("analogue", consts('{"analogue"}', values="{0,1,7,32,63,64}" if big else "{0,32,63,64}"), INV, PROPS),
            MC("irq", consts('{"irq"}'), INV, PROPS), MC("serial", consts('{"serial"}', rooms="{0,1,2,3}" if big else "{0,2}"), INV, PROPS),
            MC("clock", consts('{"clock"}'), INV, PROPS)]


def digital(n):
    def gen(rng):
        for k in range(n):
            if k % 50 == 0:
                yield {"op": "newdigital", "inv": rng.random() < .5, "pull": rng.random() < .5}
            else:
                v = rng.random() < .5
                yield rng.choice([{"op": "outinit", "v": v}, {"op": "outset", "v": v, "how": rng.choice(["bool", "state"])}, {"op": "flip"}, {"op": "ininit"}, {"op": "inread", "v": v}])
    return gen


def analogue(n):
    def gen(rng):
        for k in range(n):
            if k % 50 == 0:
                yield {"op": "newanalogue", "inv": rng.random() < .5, "inv2": rng.random() < .5, "res": rng.randint(8, 14), "res2": rng.randint(8, 14), "pull": rng.random() < .5}
            else:
                i = rng.randint(1, 2)
                yield rng.choice([{"op": "anainit", "k": i}, {"op": "anaset", "k": i, "v": rng.choice([0, 64, rng.randint(0, 64)])}, {"op": "anaset", "k": i, "v": rng.randint(0, 64)},
                                  {"op": "aininit"}, {"op": "ainread", "raw": rng.randint(0, 1023)}])
    return gen


def irq(n):
    def gen(rng):
        for k in range(n):
            if k % 50 == 0:
                own = [[rng.randint(0, 2), rng.randint(0, 3)] for _ in range(2)]
                yield {"op": "newirq", "cb1": own[0][0], "trig1": own[0][1], "cb2": own[1][0], "trig2": own[1][1], "pull": rng.random() < .5}
                continue
            i, r = rng.randint(0, 1), rng.random()
            if r < .3:
                c, t = rng.randint(0, 2), rng.randint(0, 3)
                g = [c or own[i][0], t if t != 3 else own[i][1]]
                if g[0] and g[1] != 3:
                    own[i] = g
                    yield {"op": "attach", "k": i + 1, "cb": c, "trig": t}
            elif r < .45:
                yield {"op": rng.choice(["detach", "detach", "irqinit"]), "k": i + 1}
            else:
                yield {"op": "edge", "k": i + 1, "edge": rng.randint(0, 1)}
    return gen


def serial(n):
    def gen(rng):
        for k in range(n):
            if k % 60 == 0:
                yield {"op": "newserial", "room": rng.randint(0, 20), "timeout": rng.randint(0, 50)}
                continue
            r, vs = rng.random(), [rng.randint(0, 255) for _ in range(rng.randint(0, 8))]
            if r < .25:
                yield {"op": "arrive", "vs": vs}
            elif r < .5:
                yield rng.choice([{"op": "readone"}, {"op": "readmany", "n": rng.randint(0, 10), "how": rng.choice(["bytes", "chars"])}])
            elif r < .75:
                how = rng.choice(["byte", "bytes", "chars", "view"])
                yield {"op": "write", "vs": [rng.randint(0, 255)] if how == "byte" else vs, "how": how}
            else:
                yield rng.choice([{"op": "drain", "room": rng.randint(0, 20)}, {"op": "serialinit"}, {"op": "flush"}])
    return gen


def clock(n):
    def gen(rng):
        for k in range(n):
            if k % 60 == 0:
                yield {"op": "newclock"}
                continue
            r, how = rng.random(), rng.choice(["print", "printlit", "println", "printf"])
            if r < .3:
                yield {"op": "wait", "us": rng.choice([rng.randint(0, 2000), rng.randint(0, 3000000)]), "how": rng.choice(["delay_us", "delay_us_int"])}
            elif r < .6:
                yield {"op": "wait", "us": 1000 * rng.randint(0, 5000), "how": rng.choice(["delay", "delay_ms", "delay_ms_int"])}
            elif r < .9:
                yield {"op": "say", "len": rng.randint(2, 400) if how == "printf" else rng.randint(0, 400), "how": how}
            else:
                yield rng.choice([{"op": "grow", "n": rng.randint(0, 1000)}, {"op": "begin", "baud": rng.choice([0, 9600, 115200])}, {"op": "halt", "msg": rng.random() < .5}])
    return gen


def gens(tier):
    return [("%s%d" % (g.__name__, j), g(600)) for g in (digital, analogue, irq, serial, clock) for j in range(20 if tier == "thorough" else 2)]


import os
FLAGS = ["-UNATIVE", "-DARDUINO=10819", "-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "arduino")]
CHECK = Check("C34", [Part("Board", "arduino.cpp", mcs, gens, flags=FLAGS, trace_consts=consts("{}", *["{}"] * 6), trace_invs=INV, need_ops=ALL)],
              ["the Arduino core is a stand-in (harness/arduino/Arduino.h): pins, interrupts, serial port and clock are data; interrupt numbers differ from pins",
               "an interrupt is attached only with a callback and an edge", "resolutions of 8 bits or more"])
