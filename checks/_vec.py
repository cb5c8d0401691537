from check import *

OPS = ["new", "pushb", "pushf", "insert", "popb", "popf", "remove", "set", "clear", "fill", "assign", "swap", "move", "copy"]
INV, PROPS = ["TypeOK", "FreedIffUnreferenced"], ["Remaining", "Conserved"]


def consts(caps, vals, own, lists="{0,1,2}", maxheld=1, dbg="FALSE"):
    return dict(Dbg=dbg, Caps=caps, Vals=vals, Own=own, Lists=lists, MaxHeld=str(maxheld))


def session(own, cap, n, warm=0):
    def gen(rng):
        ids = 4 if own else 0
        val = (lambda: rng.randint(1, 4)) if own else (lambda: rng.randint(0, 2000))

        def new():
            kind = rng.choice(["cap", "cap", "init", "list"] + ([] if own else ["ext"]))
            if kind == "list":
                vs = [val() for _ in range(rng.randint(1, 4))]
                return {"op": "new", "kind": kind, "cap": len(vs), "vs": vs, "ids": ids, "reset": False}
            if kind == "ext":
                c = rng.randint(1, 4)
                return {"op": "new", "kind": kind, "cap": c, "vs": [val() for _ in range(rng.randint(0, c))], "ids": ids, "reset": False}
            return {"op": "new", "kind": kind, "cap": cap, "vs": [val()] if kind == "init" else [], "ids": ids, "reset": False}
        got = yield {"op": "new", "kind": "cap", "cap": cap, "vs": [], "ids": ids, "reset": True}
        held = {i: 0 for i in range(1, ids + 1)}
        bias = .5
        for k in range(n + warm):
            if k % 40 == 0:
                bias = rng.choice([.25, .5, .75])
            keep = own and rng.random() < .4
            size, c = got["size"], got["cap"]
            r = rng.random() if k >= warm else .9
            if k < warm:
                bias = 1
            if r < .02:
                op = rng.choice([new, lambda: {"op": "clear"}, lambda: {"op": "fill", "v": val()},
                                 lambda: {"op": "assign", "vs": [val() for _ in range(rng.randint(1, 4))]},
                                 lambda: {"op": "move", "how": rng.choice(["ctor", "assign", "self"])},
                                 lambda: {"op": "copy", "how": rng.choice(["ctor", "assign", "back", "self"])},
                                 lambda: (lambda c2, k2: {"op": "swap", "cap": c2, "k": k2, "vs": [val() for _ in range(rng.randint(1, c2 - k2))]})(*rng.choice([(1, 0), (cap + 2, 1), (cap + 2, 2), (cap, 0)]))])()
            elif r < .08:
                op = {"op": "new", "kind": "cap", "cap": cap, "vs": [], "ids": ids, "reset": False} if c < 3 else {"op": "move", "how": "ctor"}
            elif own and r < .2:
                h = [i for i in held if held[i] > 0]
                op = {"op": "unhold", "v": rng.choice(h)} if h else {"op": "clear"}
            elif rng.random() < bias or size == 0:
                op = rng.choice([lambda: {"op": "pushb", "v": val(), "emp": rng.random() < .5},
                                 lambda: {"op": "pushf", "v": val(), "emp": rng.random() < .5},
                                 lambda: {"op": "insert", "i": rng.randint(0, size + 2), "v": val()}])()
            else:
                op = rng.choice([lambda: {"op": "popb", "keep": keep}, lambda: {"op": "popf", "keep": keep},
                                 lambda: {"op": "popf", "keep": keep},
                                 lambda: {"op": "remove", "i": rng.randint(0, size), "keep": keep},
                                 lambda: {"op": "set", "i": rng.randint(0, size - 1), "v": val()}])()
            if op["op"] in ("pushb", "pushf", "insert", "fill") and size and rng.random() < .15:
                i = rng.randint(0, size - 1)
                op.update(own=i + 1, v=got["q"][i])
                if "emp" in op:
                    op["emp"] = False
            got = yield op
            if op.get("keep"):
                held[got["res"]] = held.get(got["res"], 0) + 1
            if op["op"] == "unhold":
                held[op["v"]] -= 1
            for i in held:
                if own and got["cnt"][i - 1] == 0:
                    held[i] = 0
    return gen


ASSUME = ["one thread; operations within their preconditions: pops, peeks and removes need an element",
          "a popped element is moved out of the returned reference at once (the return is nodiscard)"]
TC = consts("{1}", "{1}", "FALSE")
