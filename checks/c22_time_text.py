from check import *

INV, PROPS = ["TypeOK", "RoundTrip", "Sound"], []
US = [1, 1000, 10**6, 60 * 10**6, 3600 * 10**6, 86400 * 10**6]      # microseconds per unit
EDGES = [999.5 * 1000, 1000, 999.5e6 / 1000 * 1000, 899.5e6, 900e6, 1439.5 * 60e6, 1440 * 60e6, 23.5 * 3600e6, 86400e6, 1.5 * 86400e6, 59.5e6, 60e6, 61e6, 30e6]


def big(v):
    m, a = [], abs(v)
    while a:
        m.append(a % 10000)
        a //= 10000
    return {"n": v < 0, "m": m}


def tla(v):
    return "[n |-> %s, m |-> <<%s>>]" % ("TRUE" if v < 0 else "FALSE", ", ".join(map(str, big(v)["m"])))


def word(s):
    return "<<" + ", ".join('"%s"' % c for c in s) + ">>"


def durations(k):
    d = {(u, n) for u in range(1, 7) for n in range(4)}
    for e in EDGES:
        for u in range(1, 7):
            c = int(e // US[u - 1])
            d |= {(u, c + i) for i in range(-k, k + 2) if c + i >= 0}
    return d | {(1, 2**63 - 1), (1, 2**63 - 2), (2, 2**63 // 1000 - 1), (6, 106751990), (6, 106751991)}


MAX = 2**63 - 1
WORDS = [str(MAX) + "d", str(MAX + 1) + "us", str(MAX - 7) + "ms", str(MAX) + "0s", "0" * 30 + "12h", "9" * 25 + "s", "9" * 25, "1" * 40 + "x", "2147483647us", "2147483648us", "4294967296ms", "1d1", "1 d", "10us ", "1.5h", "12msus"]
PRINT = [chr(c) for c in range(32, 127) if chr(c) not in '"\\']
WORDS += ["1" + c for c in PRINT] + ["1%ss" % c for c in PRINT] + ["1h" + c for c in PRINT] + [c + "1s" for c in PRINT]


def consts(durs, alphabet, n, words):
    return dict(Durations="{" + ", ".join("<<%d, %s>>" % (u, tla(v)) for u, v in sorted(durs)) + "}", Alphabet="{" + ", ".join('"%s"' % c for c in alphabet) + "}", MaxLen=str(n),
                Words="{" + ", ".join(word(w) for w in words) + "}")


def mcs(tier):
    t = tier == "thorough"
    return [MC("repr", consts(durations(40 if t else 4), "", 0, []), INV, PROPS),
            MC("parse", consts([], "019usmhd -" if t else "09usmhd-", 5 if t else 4, WORDS), INV, PROPS)]


def session(n):
    def gen(rng):
        for _ in range(n):
            if rng.random() < .5:
                u = rng.randint(1, 6)
                lim = MAX // US[u - 1]
                v = rng.choice([rng.randint(0, 3000), int(10 ** rng.uniform(0, 19)), max(0, int(rng.choice(EDGES) // US[u - 1]) + rng.randint(-2, 2)), lim - rng.randint(0, 3)])
                if v * US[u - 1] <= MAX:
                    yield {"op": "repr", "u": u, "v": big(v)}
            else:
                num = rng.choice([str(rng.randint(0, 99999)), str(int(10 ** rng.uniform(0, 22))), "0" * rng.randint(0, 5) + str(rng.randint(0, 10**10)), str(MAX + rng.randint(-3, 3)), ""])
                s = num + rng.choice(["us", "ms", "s", "m", "h", "d"] * 3 + ["", "US", "x", "sd", "mm", "u", "us ", " s", "min"] + ["".join(rng.choice(PRINT) for _ in range(rng.randint(1, 3)))])
                if rng.random() < .2:
                    i = rng.randint(0, len(s))
                    s = s[:i] + rng.choice("+- .,0a\t\n") + s[i:]
                yield {"op": "parse", "text": list(s)}
    return gen


def gens(tier):
    return [("t%d" % j, session(600)) for j in range(60 if tier == "thorough" else 6)]


CHECK = Check("C22", [Part("TimeText", "timetext.cpp", mcs, gens, trace_consts=consts([], "", 0, []), trace_invs=INV, need_ops=["repr", "parse"])],
              ["durations are not negative and fit 64 bits in microseconds"])
