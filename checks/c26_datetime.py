from check import *

INV, PROPS = ["TypeOK", "Agree", "Known"], ["Weekly"]


def consts(years, span, secs, times, shifts="{}"):
    return dict(Years=years, Span=str(span), Secs=secs, Times="{" + ", ".join("[h |-> %d, mi |-> %d, s |-> %d]" % t for t in times) + "}", Shifts=shifts)


TIMES = [(0, 0, 0), (8, 9, 9), (23, 59, 59), (12, 8, 0)]


def mcs(tier):
    t = tier == "thorough"
    shifts = "{[m |-> m, d |-> d, h |-> h, mi |-> 0, s |-> s] : m \\in {-1,0,13}, d \\in {-1,0,40}, h \\in {0,25}, s \\in {-1,3600}}"
    r = [MC("days", consts("{1900,1970,1999,2000,2004,2023,2100}", 366, "{0,86399}", TIMES[:3]), INV, PROPS),
         MC("seconds", consts("{1972}", 0, "0..3700 \\union {7199,7200,43199,43200,82800,86340,86399}", [(h, m, s) for h in (0, 7, 8, 9, 10, 23) for m in (0, 7, 8, 9, 10, 59) for s in (0, 8, 9, 59)]), INV, PROPS),
         MC("carry", consts("{1969,1999,2024}", 70, "{}", [], shifts), INV, PROPS)]
    if t:
        r += [MC("century%d" % c, consts("{%s}" % ",".join(str(y) for y in range(c, c + 100)), 366, "{0,86399}", TIMES[:2]), INV, PROPS) for c in (1900, 2000, 2100, 2200, 2300)]
        r += [MC("clock", consts("{2024}", 0, "0..86399", []), INV, PROPS)]
    return r


def session(n):
    def gen(rng):
        for _ in range(n):
            if rng.random() < .6:
                y = rng.randint(1900, 2400)
                day = rng.choice([rng.randint(-25567, 157000), (y - 1970) * 365 + rng.randint(-10, 130)])
                yield {"op": "any", "day": day, "s": rng.choice([0, 86399, rng.randint(0, 86399)])}
            else:
                f = rng.random() < .5
                yield {"op": "carry", "y": rng.randint(1900, 2390), "m": rng.randint(1, 12) if f else rng.randint(-30, 40), "d": rng.randint(1, 31) if f else rng.randint(-400, 800),
                       "h": rng.randint(0, 23) if f else rng.randint(-100, 100), "mi": rng.randint(0, 59) if f else rng.randint(-3000, 3000), "s": rng.randint(0, 59) if f else rng.randint(-200000, 200000)}
    return gen


def gens(tier):
    return [("d%d" % j, session(600)) for j in range(60 if tier == "thorough" else 6)]


CHECK = Check("C26", [Part("Calendar", "datetime.cpp", mcs, gens, trace_consts=consts("{}", 0, "{}", []), trace_invs=["Known"], need_ops=["jump", "tick", "at", "fields", "texts", "carry", "any"])],
              ["the zone is UTC, as the class itself asks for", "years 1890 to 2410"])
