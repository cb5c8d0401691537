from check import *

PROPS = ["NoLineLost", "PullInOrder", "NoStall", "ExactlyOnce", "AbortKeepsOthers", "OneLineEaten"]
INV = ["TypeOK"]


def consts(mode, icaps, ocaps, chars="{97,10}", delims="{<<10>>}", arrivals="{1}", maxpend=2, outchars="{97,98}",
           writes="{1,2}", maxpull=3):
    return dict(ICaps=icaps, OCaps=ocaps, Delims=delims, Chars=chars, Arrivals=arrivals, MaxPend=str(maxpend),
                OutChars=outchars, Writes=writes, MaxPull=str(maxpull), Mode='"%s"' % mode)


def session(mode, icap, ocap, n, cut=True):
    def gen(rng):
        dels = rng.choice([[13, 10], [10], [59, 44, 0], [0], [10, 97]])
        got = yield {"op": "new", "icap": icap, "ocap": ocap, "del": dels}
        ch = lambda: rng.choice([97, 98, 99, 122, 32, 0, 255, 10, 13, 59] + dels * 2)
        word = lambda m: [ch() for _ in range(m)]
        tx = "none"
        for _ in range(n):
            ops = []
            if mode in ("in", "tx"):
                if len(got["pend"]) < 3 * icap + 4:
                    ops += [lambda: {"op": "arrive", "vs": word(rng.choice([0, 1, 2, 3, rng.randint(0, icap + 2)]))}] * 3
                ops += [lambda: {"op": "pull", "fail": rng.choice([-1, -1, -1, 0, 1, rng.randint(0, icap + 1)])}] * 4
                ops += [lambda: {"op": "view", "known": rng.random() < .3}]
                if tx != "open":
                    ops += [lambda: {"op": "drop", "known": rng.random() < .3}]
                    ops += [lambda: {"op": "copy", "max": rng.choice([0, got["len"], max(0, got["len"] - 1), got["len"] + 1, icap + 2]),
                                     "known": rng.random() < .3}]
            if mode in ("out", "tx"):
                ops += [lambda: {"op": "flush", "room": rng.choice([0, 1, 2, rng.randint(0, ocap + 1), ocap + 5]),
                                 "fail": rng.choice([-1, -1, 0, 1, rng.randint(0, ocap)])}] * (2 if mode == "out" else 1)
                if tx != "open":
                    ops += [lambda: {"op": "write", "vs": word(rng.choice([0, 1, 1, 2, rng.randint(0, ocap + 2)])), "roll": rng.random() < .25}] * 3
                    ops += [lambda: {"op": rng.choice(["dropl", "dropf"]), "n": rng.choice([1, 1, 2, rng.randint(1, ocap + 1)])}]
            if mode == "tx":
                if tx == "open":
                    def reply():
                        m = rng.choice([0, 1, 1, 2, got["oleft"], got["oleft"] + 1])
                        if not cut:
                            m = min(m, got["oleft"])
                        return {"op": "reply", "vs": word(m), "one": m == 1 and rng.random() < .5, "cut": cut}
                    ops += [reply] * 6
                    ops += [lambda: {"op": "commit"}, lambda: {"op": "abort"}, lambda: {"op": "abort"},
                            lambda: {"op": "destroy"}, lambda: {"op": "tmove"}, lambda: {"op": "tself"}]
                else:
                    ops += [lambda: {"op": "begin"}] * 5
                    if tx == "done":
                        ops += [lambda: {"op": "tassign"}] * 5 + [lambda: {"op": "destroy"}]
            op = rng.choice(ops)()
            got = yield op
            if op["op"] in ("begin", "tassign"):
                tx = "open" if got["res"] == 1 else ("done" if op["op"] == "tassign" else "none")
            elif op["op"] in ("commit", "abort"):
                tx = "done"
            elif op["op"] == "destroy":
                tx = "none"
    return gen


TC = consts("tx", "{1}", "{1}")
ASSUME = ["one thread; the underlying stream's available()/available_for_write() tell the truth",
          "at most one open transaction per stream; while it is open nobody else writes to or consumes from the buffers"]
