from check import *

INV = ["TypeOK", "RunsAgree", "NextIsAStart"]


def consts(starts, durs, vs, n, q):
    return dict(Starts=starts, Durs=durs, Vs=vs, MaxBlocks=str(n), Queries=q)


Q = "{0, 1, 9, 10, 11, 43199, 43200, 43201, 86398, 86399}"


def mcs(tier):
    r = [MC("two", consts("{0, 10, 43200, 86399}", "{1, 10, 43200}", "{1, 3}", 2, Q), INV),
         MC("three", consts("{0, 43200, 86399}", "{10, 28800}", "{2, 5}", 3, "{0, 9, 28799, 43200, 86399}"), INV)]
    if tier == "thorough":
        r += [MC("three6", consts("{0, 1, 10, 43200, 86390, 86399}", "{1, 10, 28800}", "{2, -3}", 3, Q), INV),
              MC("whole", consts("{0, 1, 43200, 86399}", "{86400, 86399, 43200, 1}", "{1, 7, -2}", 2, Q), INV)]
    return r


def session(n):
    def gen(rng):
        for _ in range(n):
            k, left, blocks = rng.choice([0, 1, 2, 3, 3, 4, 5, 6]), 86400, []
            for i in range(k):
                d = min(left - (k - i - 1), rng.choice([1, 2, 60, 3600, 86400 // k, rng.randint(1, max(1, 2 * left // k)), left]))
                if d < 1:
                    break
                left -= d
                s = rng.choice([0, 86399, 86400 - d if d < 86400 else 0, rng.randrange(86400)] + [(b["s"] + b["d"]) % 86400 for b in blocks] + [b["s"] for b in blocks])
                blocks.append({"s": s, "d": d, "v": rng.choice([0, 1, 2, -7, rng.randint(-1000, 1000)])})
            yield {"op": "new", "blocks": blocks}
            yield {"op": "day"}
            yield {"op": "starts"}
            for t in [0, 86399] + [rng.randrange(86400) for _ in range(3)] + [max(0, min(86399, b["s"] + x)) for b in blocks for x in (-1, 0, 1)]:
                yield {"op": rng.choice(["at", "next"]), "t": t}
    return gen


def gens(tier):
    return [("s%d" % j, session(40)) for j in range(60 if tier == "thorough" else 4)]


CHECK = Check("C16", [Part("Schedule", "schedule.cpp", mcs, gens, trace_consts=consts("{0}", "{1}", "{1}", 1, "{0}"), trace_invs=["TypeOK"], chunk=1500,
                           maxlen=2000, need_ops=["new", "at", "next", "day", "starts"])],
              ["blocks start within the day and together are no longer than a day (the constructor's documented requirement); up to 6 blocks"])
