import os
from check import *

INV, PROPS = ["TypeOK", "Agree", "Enabled"], ["OnlyForward"]
TEXT = "the quick brown fox jumps over the lazy dog; 0123456789 "
msg = lambda n: (TEXT * (n // len(TEXT) + 1))[:n]


def consts(lens, steps, delays):
    return dict(Msgs="{" + ", ".join('"%s"' % msg(n) for n in lens) + "}", Steps=steps, Delays=delays, Max="255")


def mcs(tier):
    t = tier == "thorough"
    return [MC("log", consts(list(range(230, 262)) + [0, 1, 1000] if t else [0, 1, 30, 237, 238, 239, 240, 254, 255, 256, 300], "{}", "{}"), INV, PROPS),
            MC("clock", consts([1], "{1, 50, 999}" if t else "{50, 999}", "{0, 1, 999, 1000, 1001, 1500, 1999, 2000}" if t else "{0, 1, 999, 1000, 1999}"), INV, PROPS)]


def session(n):
    def gen(rng):
        for k in range(n):
            if k % 60 == 0:
                yield {"op": "new", "l": rng.randint(0, 4), "ms": rng.choice([0, 1, 4000])}
                continue
            r = rng.random()
            if r < .1:
                yield {"op": "level", "l": rng.randint(0, 4)}
            elif r < .3:
                yield {"op": "pass", "us": rng.randint(0, 5000)}
            elif r < .5:
                yield {"op": "delay", "us": rng.choice([rng.randint(0, 1100), rng.randint(0, 20000)]), "how": rng.choice(["delay_us", "delay_us_int"])}
            elif r < .6:
                yield {"op": "delay", "us": 1000 * rng.randint(1, 3000), "how": rng.choice(["delay", "delay_ms", "delay_ms_int"])}
            elif r < .95:
                i = rng.randint(0, 20)
                yield {"op": "log", "l": rng.randint(1, 4), "msg": msg(rng.choice([rng.randint(0, 60), rng.randint(200, 300), rng.randint(0, 1000)]))[i:]}
            else:
                yield {"op": "halt", "msg": rng.choice(["", "smoke", "over and out"])}
    return gen


def gens(tier):
    return [("g%d" % j, session(600)) for j in range(40 if tier == "thorough" else 4)]


FLAGS = ["-UNATIVE", "-DZEPHYR", "-DCONFIG_LOG_RUNTIME_FILTERING", "-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "zephyr")]
CHECK = Check("C35", [Part("Kernel", "zephyr.cpp", mcs, gens, flags=FLAGS, trace_consts=consts([], "{}", "{}"), trace_invs=INV, need_ops=["new", "level", "pass", "delay", "log", "halt"])],
              ["the Zephyr kernel is a stand-in (harness/zephyr): clock, sleeping, log and panic are data; uptimes far from where the 32-bit clock rolls over"])
