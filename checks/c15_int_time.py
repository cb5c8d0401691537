from check import *

INV, PROPS = ["TypeOK"], ["Total", "Undo", "Nearest"]
F = [1, 1000, 10 ** 6, 60 * 10 ** 6, 3600 * 10 ** 6, 86400 * 10 ** 6]
MAX = 2 ** 63 - 1


def big(v):
    m, a = [], abs(v)
    while a:
        m.append(a % 10000)
        a //= 10000
    return {"n": v < 0, "m": m}


def tla(vs):
    return "{" + ", ".join("[n |-> %s, m |-> <<%s>>]" % ("TRUE" if b["n"] else "FALSE", ",".join(map(str, b["m"]))) for b in map(big, sorted(set(vs)))) + "}"


def consts(units, vals, others, scalars, reals):
    return dict(Units=units, Vals=tla(vals), Others=tla(others), Scalars="{%s}" % ",".join(map(str, scalars)), Reals=reals)


EDGE = [0, 1, -1, 29, 30, -30, 31, 499, 500, -500, 501, -501, 1499, 1500, -1500, 43199, 43200]
HUGE = [2 ** 24 + 1, -(2 ** 24) - 1, 2 ** 53 + 1, -(2 ** 62) - 1, 2 ** 31 - 1, 2 ** 32 + 500, 86400 * 10 ** 6 * 5 + 43200 * 10 ** 6, 86400 * 10 ** 6 * 5 + 43200 * 10 ** 6 - 1]


def mcs(tier):
    r = [MC("edges", consts("1..6", EDGE, [0, 1, -1, 30, 500, -1500], [1, -1, 7, -60], "-5..5"), INV, PROPS),
         MC("huge", consts("{1,2,3,6}", HUGE + [MAX, -MAX], [1, 2 ** 24 + 1, -(2 ** 53) - 1, MAX, -MAX], [3, -1, 99999], "{16777215, -16777215}"), INV, PROPS)]
    if tier == "thorough":
        r += [MC("dense", consts("{2,3,4}", range(-1600, 1601, 7), range(-130, 130, 9), range(1, 12), "-40..40"), INV, PROPS),
              MC("huge6", consts("1..6", HUGE + [MAX, -MAX, MAX // 1000, MAX // 86400], HUGE, [2, -3, 60, 99999], "{16777215}"), INV, PROPS)]
    return r


def conv(v, f, t):
    if t <= f:
        return v * (F[f - 1] // F[t - 1])
    d = F[t - 1] // F[f - 1]
    a = (2 * abs(v) + d) // (2 * d)
    return -a if v < 0 else a


def session(n):
    def gen(rng):
        def val():
            e = rng.choice([10, 24, 31, 40, 53, 62, 63])
            return rng.choice([0, 1, -1, rng.randint(-(2 ** e) + 1, 2 ** e - 1), rng.randint(-2000, 2000), rng.choice([1, -1]) * (2 ** e - 1),
                               rng.choice(F) // 2 * rng.choice([1, -1, 3, 1001]) + rng.choice([-1, 0, 1])])
        u = v = 0
        for i in range(n):
            o = rng.choice(["set"] * 2 + ["conv"] * 3 + ["back", "add", "add", "sub", "cmp", "cmp", "neg", "mul", "div", "mulu", "divu", "real"]) if u else "set"
            op = {"op": o}
            if o == "set":
                u, v = rng.randint(1, 6), val()
                if abs(v) > MAX:
                    v = 5
                op.update(u=u, v=big(v))
            elif o == "real":
                h = rng.randint(-2 ** 20, 2 ** 20)
                u, by = rng.randint(1, 6), rng.choice(["", "floor", "round"])
                v = h // 2 if by == "floor" else -(-h // 2) if by == "" else (abs(h) + 1) // 2 * (1 if h > 0 else -1)
                op.update(u=u, half=h, by=by)
            elif o == "conv":
                t = rng.randint(1, 6)
                if abs(conv(v, u, 1)) > MAX:
                    continue
                v, u = conv(v, u, t), t
                op.update(u=t, how=rng.choice(["make", "assign", "move"]))
            elif o == "back":
                if abs(conv(v, u, 1)) > MAX:
                    continue
                op.update(u=rng.randint(1, u))
            elif o == "neg":
                v = -v
            elif o in ("mul", "div"):
                k = rng.choice([1, -1, 2, rng.randint(-99999, 99999)]) or 1
                if o == "mul" and abs(v * k) > MAX:
                    continue
                v = v * k if o == "mul" else (abs(v) // abs(k)) * (-1 if (v < 0) != (k < 0) else 1)
                op.update(k=k, **{"as": rng.random() < .5})
            else:
                t, w = rng.randint(1, 6), val()
                if rng.random() < .3 and o == "cmp":
                    t, w = u, v + rng.choice([-1, 0, 1])
                if abs(w) > MAX or abs(conv(w, t, u)) > MAX:
                    continue
                r = conv(w, t, u)
                if o in ("add", "sub"):
                    nv = v + r if o == "add" else v - r
                    op["as"] = rng.random() < .5
                elif o == "mulu":
                    nv = v * r
                elif o == "divu":
                    if r == 0 or abs(r) >= 100000:
                        continue
                    nv = abs(v) // abs(r) * (-1 if (v < 0) != (r < 0) else 1)
                else:
                    nv = v
                if abs(nv) > MAX:
                    continue
                v = nv
                op.update(u=t, v=big(w))
            yield op
    return gen


def gens(tier):
    return [("i%d" % j, session(900)) for j in range(80 if tier == "thorough" else 8)]


CHECK = Check("C15", [Part("IntTime", "inttime.cpp", mcs, gens, trace_consts=consts("{1}", [0], [0], [1], "{0}"), trace_invs=INV, chunk=900,
                           need_ops=["set", "conv", "back", "add", "sub", "neg", "mul", "div", "mulu", "divu", "cmp", "real"])],
              ["results and converted operands fit in 64 bits; scalar divisors below 100000 in magnitude, as TLC's integers are narrow"])
