from check import *

INV, PROPS = ["TypeOK", "SameElements"], ["OnlyThatPosition", "SwapExchanges"]
OPS = ["reset", "new", "set", "fill", "poke", "list", "move", "movec", "copy", "copyc", "self", "swap"]


def consts(lens, vals, xlen, elems='{"int"}'):
    return dict(Elems=elems, Lens=lens, Vals=vals, XLen=str(xlen))


def mcs(tier):
    r = [MC("l012", consts("0..2", "{0,1}", 2), INV, PROPS), MC("l03", consts("{0,3}", "{0,1}", 1), INV, PROPS),
         MC("elems", consts("{1,2}", "{0,1}", 1, '{"wide","byte"}'), INV, PROPS)]
    if tier == "thorough":
        r += [MC("l02v3", consts("0..2", "{0,1,2}", 2), INV, PROPS), MC("l0123", consts("0..3", "{0,1}", 3), INV, PROPS)]
    return r


def session(n):
    def gen(rng):
        elem = rng.choice(["int", "int", "wide", "byte"])
        val = lambda: rng.randint(0, 255) if elem == "byte" else rng.randint(-5, 1000) if elem == "int" or rng.random() < .5 else rng.randint(-1900000000, 1900000000)
        xl = rng.randint(1, 5)
        ref = ["none", "none"]
        got = yield {"op": "reset", "x": [val() for _ in range(xl)], "elem": elem}
        for _ in range(n):
            s = rng.randint(1, 2)
            size = got["a" if s == 1 else "b"]["size"]
            r = rng.random()
            viewed = ref[2 - s] == "view"
            if (r < .12 or .7 <= r < .78) and viewed:
                continue
            if r < .12:
                k = rng.choice(["len", "init", "list", "ext"] + ["buf"] * (elem == "byte"))
                op = {"op": "new", "s": s, "kind": k}
                if k in ("len", "init"):
                    op["n"] = rng.choice([0, 1, 2, 3, 7, rng.randint(0, 40)] + [rng.choice([255, 256, 300])] * (rng.random() < .1))
                if k == "init":
                    op["v"] = val()
                ref[s - 1] = "ext" if k in ("ext", "buf") else "own"
                if k == "list":
                    op["vs"] = [val() for _ in range(rng.randint(0, 5))]
            elif r < .55 and size:
                op = {"op": "set", "s": s, "i": rng.choice([0, size - 1, rng.randint(0, size - 1)]), "v": val(),
                      "how": rng.choice(["[]", "at", "it"])}
            elif r < .6:
                op = {"op": "fill", "s": s, "v": val()}
            elif r < .7:
                op = {"op": "poke", "i": rng.randint(0, xl - 1), "v": val()}
            elif r < .78:
                op = {"op": "list", "s": s, "vs": [val() for _ in range(rng.randint(0, 5))]}
                ref[s - 1] = "own"
            elif r < .83:
                op = {"op": "move" if viewed else rng.choice(["move", "movec"]), "s": s}
                ref[s - 1], ref[2 - s] = ref[s - 1] if viewed else ref[2 - s], "none"
            elif r < .9:
                op = {"op": "copy" if viewed else rng.choice(["copy", "copyc"]), "s": s}
                ref[s - 1] = ref[s - 1] if viewed else "view" if ref[2 - s] == "own" else ref[2 - s]
            elif r < .92:
                op = {"op": "self", "s": s, "how": rng.choice(["copy", "move"])}
            else:
                op = {"op": "swap"}
                ref.reverse()
            got = yield op
    return gen


def gens(tier):
    return [("a%d" % i, session(400)) for i in range(60 if tier == "thorough" else 6)]


CHECK = Check("C08", [Part("Arr", "array.cpp", mcs, gens, trace_consts=consts("{1}", "{1}", 1), trace_invs=INV, need_ops=OPS, chunk=1500)],
              ["one thread; caller-owned storage outlives the array, and so does an array the copies of it, which show its elements"])
