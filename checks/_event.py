from check import *

INV = ["TypeOK"]
PROPS = ["OnlyWhenDue", "DueAreServed", "NoOversleep", "Refused", "NothingLost"]
A = lambda a, **k: "[a |-> \"%s\"%s]" % (a, "".join(", %s |-> %s" % kv for kv in k.items()))


def consts(mode, caps="{2}", nids=2, hsets="{<<<<1>>, <<2>>>>}", delays="{1,2}", advs="{1}", scripts="{}", shs="{1}", vals="{0}",
           nslots=0, bases="{0}", units="{0}", dbg="FALSE", ticks="{<<FALSE,0,0>>}", late=1, kinds="<<\"u\",\"s\",\"f\">>", kept="{}", spare=0):
    return dict(Mode='"%s"' % mode, Caps=caps, NIds=str(nids), HSets=hsets, Delays=delays, Advs=advs, Scripts=scripts, ScriptHs=shs, Vals=vals,
                NSlots=str(nslots), Bases=bases, Units=units, Ticks=ticks, Late=str(late), Kinds=kinds, Kept=kept, Dbg=dbg, Spare=str(spare))


def session(mode, cap, n, ids=6, nh=5, slots=3, big=False, zero=True, busy=False, fill=0):
    """Random history; tracks just enough to stay within the preconditions."""
    def gen(rng):
        room = {}

        def new():
            hs = []
            for _ in range(ids):
                l = list(range(1, nh + 1))
                rng.shuffle(l)
                hs.append(l[:rng.choice([1, 1, 2, nh])])
            spare = rng.choice([0, 1, 3])
            room.clear()
            room.update({i + 1: max(map(len, hs)) + spare - len(hs[i]) for i in range(ids)})
            on = mode == "sleep"
            mn = rng.choice([1, 3, 50])
            return {"op": "new", "cap": cap, "hs": hs, "spare": spare, "nh": nh, "slots": slots, "on": on, "min": mn if on else 0,
                    "max": rng.choice([1, 2, 7, 60, 1000]) if on else 0, "base": rng.randrange(7), "unit": rng.choice([0, 0, 0, 1, 2, 3, 4]) if not big else 0,
                    "kinds": [rng.choice(["u", "f", "s", "ms", "none"]) for _ in range(ids)]}

        op = new()
        kinds = op["kinds"]
        unit1 = op["unit"] == 0
        text = unit1
        got = yield op
        held, wait = {}, set()          # slot -> True; slots that may be waiting
        scripted = set()
        D = lambda: rng.choice([0] * zero + [1, 1, 2, 3, 5, 8, rng.randint(1, 40)] + ([rng.randint(1, 100000), 20000000] if big else []))
        I = lambda: rng.randint(1, ids)

        def V(i):
            return 0 if kinds[i - 1] == "none" else rng.choice([0, 1, 2, 3, 4, rng.randint(5, 100000)])

        def acts():
            r = []
            for _ in range(rng.choice([1, 1, 2, 4])):
                a = rng.choice(["sched", "sched", "sched", "delay", "trig", "make", "drop"])
                i = I()
                if a == "sched":
                    r.append({"a": a, "id": i, "d": D(), "v": V(i)})
                elif a == "delay":
                    r.append({"a": a, "d": D()})
                elif a == "trig":
                    r.append({"a": a, "id": i, "v": V(i)})
                elif slots and a == "make":
                    r.append({"a": a, "k": rng.randint(1, slots), "id": i, "d": D(), "v": V(i)})
                elif slots:
                    r.append({"a": a, "k": rng.randint(1, slots)})
            return r

        for step in range(n):
            i = I()
            free = [k for k in range(1, slots + 1) if not held.get(k)]
            has = [k for k in held if held[k]]
            c = ["sched"] * (25 if busy else 5) + ["adv"] * 3 + ["loop"] * 4 + ["trig"] + ["script"] * 2
            if slots:
                c += ["make"] * 2 * bool(free) + (["drop"] + ["schedh"] * 2 + ["trigh"]) * bool(has)
            if room[i]:
                c += ["attach"]
            if [k for k in has if k not in wait]:
                c += ["resched"]
            if mode == "cap":
                c += ["probe"]
            if mode == "time" and text:
                c += ["text"] * 2
            if rng.random() < .004:
                c = ["destroy"]
            if step < fill:         # more than 8 bits count, all at once
                c = ["sched"]
            o = rng.choice(c)
            if o in ("sched", "trig"):
                op = {"op": o, "id": i, "v": V(i)}
                if o == "sched":
                    op["d"] = D()
            elif o == "make":
                op = {"op": o, "k": rng.choice(free), "id": i, "d": D(), "v": V(i)}
            elif o in ("drop", "trigh"):
                op = {"op": o, "k": rng.choice(has)}
            elif o == "attach":
                room[i] -= 1
                op = {"op": o, "id": i, "h": rng.randint(1, nh)}
            elif o == "resched":
                op = {"op": o, "k": rng.choice([k for k in has if k not in wait]), "d": rng.randint(1, 30)}
            elif o == "schedh":
                k = rng.choice(has)
                if k in wait:
                    op = {"op": "drop", "k": k}
                else:
                    op = {"op": o, "k": k, "keep": rng.random() < .5}
            elif o == "script":
                f = [h for h in range(1, nh + 1) if h not in scripted]
                op = {"op": o, "h": rng.choice(f), "acts": acts()} if f else {"op": "loop"}
            elif o == "adv":
                op = {"op": o, "d": max(1, D())}
            else:
                op = {"op": o}
            got = yield op
            o = op["op"]
            text = unit1 and (o in ("sched", "text") and text or got.get("next", 0) > 0 or got.get("wait") == 0)
            if o == "script":
                scripted.add(op["h"])
            for h, *_ in got.get("log_t", []):
                scripted.discard(h)
            if "held" in got:
                held = {k + 1: x != [0, 0] for k, x in enumerate(got["held"])}
            if o == "schedh" and op["keep"]:
                wait.add(op["k"])
            if o in ("loop",) and not got.get("wait"):
                wait = set()
            wait &= {k for k in held if held[k]}
            if o == "destroy":
                while any(held.values()):
                    k = rng.choice([k for k in held if held[k]])
                    got = yield {"op": "drop", "k": k}
                    held[k] = False
                op = new()
                unit1 = text = op["unit"] == 0
                kinds = op["kinds"]
                got = yield op
                held, wait, scripted = {}, set(), set()
    return gen


OPS = ["new", "sched", "script", "loop", "destroy"]
ASSUME = ["one thread; every id used has a handler; a waiting event is not scheduled again; handlers are not attached while their id is being delivered, and at most handler_cap per id",
          "whether an event still occupies its place while its own handlers run is left open"]


def part(mode, mcs, gens, ops):
    return Part("Event", "event.cpp", mcs, gens, trace_consts=consts(mode), trace_invs=INV, need_ops=OPS + ops, chunk=1500)
