from check import *

INV, PROPS = ["TypeOK", "Installed"], ["OnceCalled", "QuietOtherwise", "AssertThrows"]
KINDS = ["plain", "runtime", "logic", "assertion", "custom"]


def consts(handlers, kinds, msgs, debug=False):
    q = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"
    return dict(Handlers=handlers, Kinds=q(kinds), Msgs=q(msgs), Debug="TRUE" if debug else "FALSE")


def mcs(tier):
    r = [MC("two", consts("{1,2}", KINDS, ["it broke", "again"]), INV, PROPS),
         MC("three", consts("{1,2,3}", ["runtime", "custom"], ["it broke"]), INV, PROPS)]
    if tier == "thorough":
        r += [MC("four", consts("{1,2,3,4}", KINDS, ["it broke"]), INV, PROPS)]
    return r


def mcs_dbg(tier):
    return [MC("debug", consts("{1,2}", KINDS, ["it broke"], True), INV, PROPS)]


def session(n, debug=False):
    def gen(rng):
        yield {"op": "new"}
        cur, alive, plan = 0, set(), 0
        for i in range(n):
            o = rng.choice(["install", "install", "replace", "drop", "plan", "throw", "throw", "assert", "expect"])
            h = rng.randint(0, 5)
            if o == "install" and h != cur:
                cur = h
                alive |= {h} - {0}
                if plan == cur and False:
                    plan = 0
                yield {"op": o, "h": h}
            elif o == "replace" and h not in alive:
                if plan == cur:
                    plan = 0
                alive -= {cur}
                alive |= {h} - {0}
                cur = h
                yield {"op": o, "h": h}
            elif o == "drop" and h in alive and h != cur:
                if plan == h:
                    plan = 0
                alive -= {h}
                yield {"op": o, "h": h}
            elif o == "plan" and h in alive:
                plan = h
                yield {"op": o, "h": h}
            elif o in ("assert", "expect"):
                b = rng.random() < .5
                yield {"op": o, "msg": rng.choice(["it_works(n)", "n == 1 || it_works(2)"]), "holds": b, "evals": int(debug)}
                if o == "assert" and debug and not b and cur and plan and plan != cur:
                    cur, plan = plan, 0
            elif o == "throw":
                yield {"op": o, "kind": rng.choice(KINDS), "msg": "fault %d" % rng.randint(0, 10**rng.randint(1, 9)), "how": rng.choice(["call", "member", "copy"])}
                if cur and plan and plan != cur:
                    cur, plan = plan, 0
    return gen


def gens(tier):
    return [("e%d" % j, session(500)) for j in range(60 if tier == "thorough" else 6)]


def gens_dbg(tier):
    return [("d%d" % j, session(500, True)) for j in range(20 if tier == "thorough" else 3)]


OPS = ["new", "install", "drop", "replace", "plan", "throw", "assert", "expect"]
CHECK = Check("C25", [Part("Excs", "excs.cpp", mcs, gens, trace_consts=consts("0..5", [], []), trace_invs=["Installed"], need_ops=OPS),
                      Part("Excs", "excs.cpp", mcs_dbg, gens_dbg, variant="dbg", no_assert=False, trace_consts=consts("0..5", [], [], True), trace_invs=["Installed"], need_ops=OPS)],
              ["the native platform's halt does nothing, so halting itself is not observed; the log line announcing it is", "a handler throws no exception itself"])
