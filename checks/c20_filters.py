from check import *

INV, PROPS = ["TypeOK", "Distinct", "Mapped", "Chained"], ["BandHolds", "Between", "DetachOne", "ResetAll"]


def val(x):
    return {True: "TRUE", False: "FALSE"}[x] if isinstance(x, bool) else '"%s"' % x if isinstance(x, str) else str(x)


def rec(c):
    return "[" + ", ".join("%s |-> %s" % (k, val(v)) for k, v in c.items()) + "]"


PASS = dict(k="pass")
inv = lambda lo, hi, preset=False, dfl=False: dict(k="inv", lo=lo, hi=hi, preset=preset, dfl=dfl)
mp = lambda lo, hi, olo, ohi, thr=False, preset=False, dfl=False: dict(k="map", lo=lo, hi=hi, olo=olo, ohi=ohi, thr=thr, preset=preset, dfl=dfl)
ewma = lambda K, preset=False: dict(k="ewma", K=K, preset=preset)
band = lambda rel, m, dec, offset, limit, thr, preset=False, dfl=False: dict(k="band", rel=rel, m=m, dec=dec, offset=offset, limit=limit, thr=thr, preset=preset, dfl=dfl)
BROAD = band(True, 4, 0, 0, 10, True, True)
DEFAULTS = [inv(0, 4, True, True), mp(0, 4, 0, 400, False, True, True), band(True, 4, 0, 0, 10, True, True, True)]   # as configured when nothing is said


def consts(cfgs, slots, samples, resets, compose, doubles="{FALSE}"):
    return dict(Cfgs="{" + ", ".join(rec(c) for c in cfgs) + "}", Slots=slots, Doubles=doubles, Samples=samples, Resets=resets, Compose=str(compose))


def mcs(tier):
    r = [MC("band", consts([band(True, 4, -1, 0, 2, True), band(True, 4, -1, 2, 1, False), band(False, 8, -1, 4, 0, True), band(False, 4, -1, 0, 2, False)], "{1}", "{-4,0,3,4,5,9}", "{1,6}", 1, "BOOLEAN"), INV, PROPS),
         MC("mean", consts([ewma(1), ewma(2), ewma(3)], "{1}", "{0,3,6,12}", "{6}", 1), INV, PROPS),
         MC("stack", consts([PASS, inv(0, 8), mp(-4, 4, 0, 8)], "{0,2}", "{-6,2}", "{3}", 3), INV, PROPS),
         MC("mixed", consts([band(True, 4, -1, 0, 1, True), mp(0, 8, 8, 24, True), ewma(2)], "{2}", "{0,12}", "{4}", 2), INV, PROPS),
         MC("presets", consts(DEFAULTS + [BROAD, inv(0, 4, True), mp(0, 4, 0, 400, False, True), mp(0, 4, 0, 4000, False, True)], "{1}", "{0,1,4,41,45}", "{2}", 1, "BOOLEAN"), INV, PROPS)]
    if tier == "thorough":
        r += [MC("band2", consts([band(r, m, d, o, n, t) for r in (True, False) for m, d in ((4, -1), (6, 0)) for o in (0, 3) for n in (0, 1, 3) for t in (True, False)], "{1}", "{-64,-4,0,3,4,5,9,60,63,64}", "{1,6}", 1, "BOOLEAN"), INV, PROPS),
              MC("mean2", consts([ewma(1), ewma(2), ewma(3), ewma(4), ewma(5)], "{1}", "{0,3,6,12,24,60}", "{6,30}", 1), INV, PROPS),
              MC("stack2", consts([PASS, inv(0, 8), mp(-4, 4, 0, 8)], "{0,2,3}", "{-6,2}", "{3}", 4), INV, PROPS),
              MC("mixed2", consts([band(True, 4, -1, 0, 1, True), mp(0, 8, 8, 24, True), ewma(2)], "{2}", "{0,6,12}", "{4}", 3), INV, PROPS)]
    return r


def apply(f, s):
    """the value after s, or None if it is not exact: mirrors the guards only to generate usable operations"""
    c, k = f["c"], f["c"]["k"]
    if k == "pass":
        return s, f
    if k == "inv":
        return (c["hi"] - (s - c["lo"]), f) if c["lo"] <= s <= c["hi"] else None
    if k == "map":
        x = (max(c["lo"], min(c["hi"], s)) - c["lo"]) * (c["ohi"] - c["olo"])
        return (c["olo"] + x // (c["hi"] - c["lo"]), f) if x % (c["hi"] - c["lo"]) == 0 else None
    if k == "ewma":
        if f["n"] == 0:
            return s, dict(f, v=s, n=1)
        d = min(f["n"] + 1, c["K"])
        return (f["v"] + (s - f["v"]) // d, dict(f, v=f["v"] + (s - f["v"]) // d, n=d)) if (s - f["v"]) % d == 0 else None
    w = 40 if c["preset"] else c["m"] * 10 ** (c["dec"] + 1)
    v = s if f["v"] is None else f["v"]
    mid = (v if c["rel"] else 0) + c["offset"]
    if mid - w <= s <= mid + w:
        return s, dict(f, v=s, n=0)
    n = f["n"] + 1
    v = s if n > c["limit"] or f["v"] is None else f["v"]
    return v, dict(f, v=v, n=n)


def through(fs, s):
    out = []
    for f in fs:
        a = apply(f, s)
        if a is None or abs(a[0]) > 1 << 20:
            return None
        s = a[0]
        out.append(a[1])
    return out


def aims(rng, fs, big):
    """a sample that suits the first filter, often at one of its limits"""
    if not fs:
        return rng.randint(-1 << 29, 1 << 29) if big else rng.randint(-1000, 1000)
    f = fs[0]
    c, k = f["c"], f["c"]["k"]
    e = rng.choice([-1, 0, 0, 1])
    if k in ("inv", "map"):
        return rng.choice([c["lo"], c["hi"], rng.randint(c["lo"], c["hi"]), c["lo"] + e, c["hi"] + e] + ([rng.randint(-500, 500)] if k == "map" else []))
    if k == "ewma":
        v, n = (f["v"] or 0), min(f["n"] + 1, c["K"])
        return v + n * rng.randint(-30, 30)
    if k == "band":
        w = 40 if c["preset"] else c["m"] * 10 ** (c["dec"] + 1)
        mid = (f["v"] or 0 if c["rel"] else 0) + c["offset"]
        return rng.choice([mid + w + e, mid - w + e, mid + rng.randint(-w, w), mid + rng.choice([1, -1]) * (w + 1 + rng.randint(0, 40)), rng.randint(-4000, 4000)])
    return rng.randint(-1 << 29, 1 << 29) if big and len(fs) == 1 else rng.randint(-1000, 1000)


def config(rng):
    if rng.random() < .1:
        return rng.choice(DEFAULTS)
    k = rng.choice(["pass", "inv", "map", "map", "ewma", "ewma", "band", "band", "band"])
    if k == "pass":
        return PASS
    if k == "inv":
        lo = rng.randint(-200, 200)
        return rng.choice([inv(0, 4, True), inv(lo, lo + rng.randint(0, 400), rng.random() < .3), inv(-2000, 2000)])
    if k == "map":
        lo, span = rng.randint(-100, 100), 1 << rng.randint(0, 9)
        olo = rng.randint(-200, 200)
        if rng.random() < .4:
            return mp(lo, lo + span, 0, rng.choice([400, 4000]), False, True)
        return mp(lo, lo + span, olo, olo + rng.choice([0, span, 2 * span, span // 2, 100, rng.randint(0, 1000)]), rng.random() < .5)
    if k == "ewma":
        return rng.choice([ewma(10, True), ewma(100, True), ewma(rng.randint(1, 8)), ewma(rng.randint(1, 30))])
    return BROAD if rng.random() < .25 else band(rng.random() < .5, rng.randint(4, 39), rng.choice([-1, -1, 0, 0, 1]), rng.choice([0, 0, rng.randint(-60, 60)]), rng.choice([0, 1, 2, 3, 10]), rng.random() < .5)


def long_means(n):
    """the moving averages, until their frame is full and well beyond"""
    def gen(rng):
        for K, preset in [(100, True), (10, True), (50, False), (120, False)]:
            f = dict(c=ewma(K, preset), v=None, n=0, id=1)
            yield {"op": "new", "slots": 1, "dbl": False}
            yield {"op": "attach", "id": 1, "c": f["c"]}
            for i in range(n):
                v, d = f["v"] or 0, min(f["n"] + 1, K)
                s = v + d * rng.choice([0, 1, -1, 2, -2, -5 if v > 0 else 5])
                f = apply(f, s)[1]
                yield {"op": "sample", "s": s, "quiet": False}
    return gen


def session(n):
    def gen(rng):
        fs, left, slots, big = [], 0, 0, False
        for _ in range(n):
            if left <= 0:
                left, slots, fs, big = rng.randint(20, 120), rng.choice([0, 1, 1, 2, 3, 5, 8]), [], rng.random() < .5
                yield {"op": "new", "slots": slots, "dbl": big}
                continue
            left -= 1
            r = rng.random()
            if len(fs) < slots and r < (.5 if not fs else .15) or r < .01:
                ids = {f["id"] for f in fs}
                i = next(i for i in range(1, 99) if i not in ids)
                c = config(rng)
                if len(fs) < slots:
                    fs.append(dict(id=i, c=c, v=None, n=0))
                yield {"op": "attach", "id": i, "c": c}
            elif r < .2 and fs:
                i = rng.randint(0, len(fs))
                if i < len(fs):
                    del fs[i]
                yield {"op": "detach", "i": i}
            elif r < .24:
                v = rng.randint(-400, 400)
                fs = [dict(f, v=v, n=0 if f["c"]["k"] == "ewma" else f["n"]) for f in fs]
                yield {"op": "reset", "v": v}
            elif r < .35 and fs:
                i = rng.randrange(len(fs))
                for _ in range(10):
                    s = aims(rng, fs[i:i + 1], False)
                    a = through(fs[i:i + 1], s)
                    if a:
                        fs[i] = a[0]
                        yield {"op": "direct", "i": i, "s": s}
                        break
            else:
                for _ in range(40):
                    s = aims(rng, fs, big)
                    a = through(fs, s) if abs(s) < 1 << 20 or not fs else (fs if fs[0]["c"]["k"] == "pass" and len(fs) == 1 else None)
                    if a is not None:
                        fs = a
                        yield {"op": "sample", "s": s, "quiet": rng.random() < .3}
                        break
    return gen


def gens(tier):
    return [("f%d" % j, session(700)) for j in range(80 if tier == "thorough" else 16)] + [("mean%d" % j, long_means(250)) for j in range(8 if tier == "thorough" else 2)]


CHECK = Check("C20", [Part("Filter", "filter.cpp", mcs, gens, trace_consts=consts([], "{}", "{}", "{}", 0), trace_invs=["TypeOK", "Distinct", "Mapped", "Chained"],
                           need_ops=["new", "attach", "detach", "sample", "direct", "reset"])],
              ["samples and configurations are chosen so that the real arithmetic is exact (multiples of a quarter that divide evenly)",
               "inverters receive samples within their range only, as they assert", "decades are whole numbers (or the preset's)"])
