from check import *

INV, PROPS = ["TypeOK", "Enabled", "Bounded"], ["Quiet"]
TEXT = "the quick brown fox jumps over the lazy dog; 0123456789 "
msg = lambda n: (TEXT * (n // len(TEXT) + 1))[:n]


def consts(lens, bases, advs, dbg=False):
    return dict(Msgs="{" + ", ".join('"%s"' % msg(n) for n in lens) + "}", Bases=bases, Advs=advs, Max="255", Dbg="TRUE" if dbg else "FALSE")


def mcs(tier):
    t = tier == "thorough"
    lens = sorted({0, 1, 30} | set(range(212, 262, 1)) | {511, 512, 513, 1000, 5000}) if t else [0, 1, 200, 219, 220, 221, 222, 223, 236, 237, 238, 239, 254, 255, 256, 257, 300, 1000]
    return [MC("lengths", consts(lens, "{<<0, 0>>}", "{}"), INV, PROPS),
            MC("times", consts([3, 220], "{<<0, 0>>, <<9999, 9998>>, <<214748, 3000>>, <<429496, 6695>>}", "{1,2,600}"), INV, PROPS)]


def mcs_dbg(tier):
    return [MC("debug", consts([0, 3, 200, 240, 300], "{<<0, 0>>}", "{}", True), INV, PROPS)]


def session(n):
    def gen(rng):
        up, live = 0, False
        for _ in range(n):
            r = rng.random()
            if not live or r < .02:
                up, live = rng.choice([0, 5, 99999990, 1234567890, 2147000000, 2147483647, 2147483648, 3000000000, 4294900000]), True
                yield {"op": "new", "l": rng.randint(0, 4), "hi": up // 10000, "lo": up % 10000}
            elif r < .15:
                yield {"op": "level", "l": rng.choice([0, 1, 2, 3, 4, 4])}
            elif r < .25:
                d = rng.choice([1, 10, rng.randint(0, 100000)])
                if up + d < 2**32:
                    up += d
                    yield {"op": "adv", "d": d}
            else:
                s = msg(rng.choice([rng.randint(0, 60), rng.randint(190, 300), rng.randint(0, 2000)]))
                i = rng.randint(0, 20)
                yield {"op": "log", "l": rng.choice([1, 2, 3, 4, 4]), "how": rng.choice(["plain", "string", "number", "alias"]), "n": rng.choice([0, 7, -1, rng.randint(-10**9, 10**9)]), "msg": s[i:]}
    return gen


def gens(tier):
    return [("g%d" % j, session(500)) for j in range(60 if tier == "thorough" else 6)]


CHECK = Check("C24", [Part("Log", "logging.cpp", mcs, gens, trace_consts=consts([], "{}", "{}"), trace_invs=INV, need_ops=["new", "level", "adv", "log"]),
                      Part("Log", "logging.cpp", mcs_dbg, None, variant="dbg", trace_consts=consts([], "{}", "{}", True), trace_invs=INV, need_ops=["new", "level", "log"])],
              ["messages have a level between error and debug", "uptime up to 2^32 ms", "the default maximum message size (256)"])
