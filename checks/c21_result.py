from check import *

INV, PROPS = ["TypeOK"], ["Frame", "CopyKeeps", "PassOn", "CallsOnce"]
KINDS = ["iii", "sss", "isi", "sis", "fif", "ifs", "bdi", "ibb", "sii"]
ALL = "{" + ", ".join('"%s"' % k for k in KINDS) + "}"


def mcs(tier):
    r = [MC("one", dict(Kinds=ALL, Slots="1", P="3"), INV, PROPS),
         MC("two", dict(Kinds='{"fif", "sis", "sss"}', Slots="2", P="3"), INV, PROPS)]
    if tier == "thorough":
        r += [MC("all", dict(Kinds=ALL, Slots="2", P="3"), INV, PROPS)]
    return r


def session(n):
    def gen(rng):
        left, k, S = 0, "iii", 3
        ts = ["none"] * S
        for _ in range(n):
            if left <= 0:
                left, k, ts = 60, rng.choice(KINDS), ["none"] * S
                yield {"op": "new", "kind": k, "n": S}
                continue
            left -= 1
            i, j, v = rng.randint(1, S), rng.randint(1, S), rng.randint(0, 2)
            o = rng.choice(["make", "make", "copy", "copy", "move", "unwrap", "combine", "combine", "combine", "match", "or"])
            t = ts[i - 1]
            if o == "make":
                t = rng.choice(["none", "ok", "ok", "fail", "fail", "mid"])
                short = [] if k in ("iii", "sss") else ["short-lvalue", "short-const", "short-temp"]
                how = rng.choice({"none": ["default"], "ok": ["lvalue", "const", "temp", "assign", "return"], "fail": ["lvalue", "const", "temp"] + short, "mid": ["lvalue", "const", "temp"]}[t])
                ts[i - 1] = t
                yield {"op": "make", "i": i, "t": t, "how": how, "v": 0 if t == "none" else v}
            elif o == "copy":
                ts[i - 1] = ts[j - 1]
                yield {"op": "copy", "i": i, "j": j, "how": rng.choice(["make", "make-const", "make-const-move", "assign", "assign-const", "return"])}
            elif o == "move":
                if i != j:
                    ts[i - 1], ts[j - 1] = ts[j - 1], "none"
                yield {"op": "move", "i": i, "j": j, "how": rng.choice(["make", "assign"])}
            elif o == "unwrap" and t != "none":
                ts[i - 1] = "none"
                yield {"op": "unwrap", "i": i, "t": t}
            elif o == "match" and t != "none":
                yield {"op": "match", "i": i}
            elif o == "or":
                yield {"op": "or", "k": rng.choice(["value_or", "error_or", "unwrap_or_else"]), "i": i, "d": rng.randint(3, 9)}
            elif o == "combine":
                c = rng.choice(["map", "map_type", "map_error", "map_intermediary", "and_then", "or_else", "chain"])
                to = {"map": "ok", "map_type": "ok", "map_error": "fail", "map_intermediary": "mid"}.get(c) or rng.choice(["none", "ok", "fail", "mid"])
                hit = t == {"map": "ok", "map_type": "ok", "and_then": "ok", "map_error": "fail", "or_else": "fail"}.get(c, "mid")
                if c != "map_type":
                    ts[j - 1] = to if hit else t
                yield {"op": "combine", "k": c, "i": i, "j": j, "to": to, "mut": c == "chain" and rng.random() < .5, "keep": c != "map_type"}
    return gen


def gens(tier):
    return [("r%d" % j, session(800)) for j in range(60 if tier == "thorough" else 6)]


CHECK = Check("C21", [Part("Result", "result.cpp", mcs, gens, trace_consts=dict(Kinds="{}", Slots="0", P="3"), trace_invs=INV,
                           need_ops=["new", "make", "copy", "move", "unwrap", "combine", "match", "or"])],
              ["a payload is read, and match is called, only in the state it exists in", "a result that was moved from or unwrapped is not read again",
               "nine combinations of int, float, double, string and a larger class as value, error and intermediary types"])
