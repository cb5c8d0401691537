from check import *

INV, PROPS = ["TypeOK"], ["Kept", "Inverse", "NoDuplicates"]
PARTS = '{<<>>, <<"a">>, <<"b","c">>, <<"d","e","f">>}'


def consts(coords="{}", scalars="{}", parts="{}", types="{}", firsts="{}", seconds="{}", peak=1000, depth=1):
    return dict(Coords=coords, Scalars=scalars, Parts=parts, Types=types, Firsts=firsts, Seconds=seconds, Peak=peak, Depth=depth)


def mcs(tier):
    r = [MC("values", consts(parts=PARTS, types='{"a","b","c"}', firsts="{0,1,-5}", seconds='{"", "x", "a longer text that is not kept in place"}'), INV, PROPS),
         MC("points", consts("{-3,0,4}", "{0,-2,3}", depth=1), INV, PROPS)]
    if tier == "thorough":
        r += [MC("points+", consts("{-12,-1,0,5}", "{0,-1,7}", depth=1), INV, PROPS), MC("points2", consts("{-3,4}", "{-2}", depth=2), INV, PROPS)]
    return r


def session(n):
    def gen(rng):
        p = []
        for i in range(n):
            o = rng.choice(["point", "add", "sub", "mul", "div", "mod", "scale", "eq", "mag", "normalize", "unit"]) if p else "point"
            d = rng.choice([2, 3]) if o == "point" else len(p)
            c = lambda: rng.choice([0, 1, -1, 3, 4, rng.randint(-40, 40), rng.randint(-1000, 1000)])
            q = [c() for _ in range(d)]
            real = rng.random() < .5
            op = {"op": o}
            sq = sum(a * a for a in p)
            mag = int(sq ** .5)
            while mag * mag > sq:
                mag -= 1
            if o == "point":
                if rng.random() < .4:
                    k = rng.choice([1, 2, -3, 10])
                    q = [k * a for a in rng.choice([[3, 4], [5, -12], [8, 15], [1, 2, 2], [-2, 3, 6], [2, 6, -9], [4, 4, 7]])]
                op["p"] = r = q
            elif o in ("add", "sub", "mul"):
                f = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b}[o]
                r = [f(a, b) for a, b in zip(p, q)]
                op.update(p=q, real=real, **{"as": rng.random() < .5})
            elif o in ("div", "mod"):
                if 0 in q:
                    continue
                quo = lambda a, b: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                if o == "mod" or any(a % b for a, b in zip(p, q)):
                    real = False
                r = [quo(a, b) if o == "div" else a - b * quo(a, b) for a, b in zip(p, q)]
                op.update(p=q, real=real)
            elif o == "eq":
                op.update(p=rng.choice([p, q, p[:-1] + [p[-1] + 1], [p[0] - 1] + p[1:]]), real=real)
                r = p
            elif o == "scale":
                k = rng.choice([0, 1, -1, 2, rng.randint(-20, 20)])
                r = [a * k for a in p]
                op.update(k=k, real=real)
            elif o == "unit":
                if sq == 0 or sq > 10000:
                    continue
                op["real"], r = True, p
            elif o == "mag":
                op["real"], r = real and mag * mag == sq, p
            else:
                if mag == 0:
                    continue
                op["real"], r = False, [abs(a) // mag * (-1 if a < 0 else 1) for a in p]
            if any(abs(a) > 10000 for a in r):
                continue
            p = r
            if "real" in op:
                op["num"] = rng.choice(["float", "double", "tiny", "huge"] if op["real"] else ["int", "short", "long"])
            yield op
    return gen


def gens(tier):
    return [("p%d" % i, session(500)) for i in range(60 if tier == "thorough" else 6)]


OPS = ["point", "add", "sub", "mul", "div", "mod", "scale", "eq", "mag", "normalize", "unit", "tuple", "first", "second", "tcopy", "concat", "unique"]
CHECK = Check("C30", [Part("Helpers", "helpers.cpp", mcs, gens, trace_consts=consts(peak=10000), trace_invs=INV, need_ops=OPS)],
              ["coordinates are whole multiples of one, of 2^-20 or of 2^30, few enough to be exact in their type"])
