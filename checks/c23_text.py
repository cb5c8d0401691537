from check import *

INV, PROPS = ["TypeOK", "Fits", "Maximal"], ["Stripping"]
word = lambda s: "<<" + ", ".join('"%s"' % c for c in s) + ">>"
words = lambda ws: "{" + ", ".join(word(w) for w in ws) + "}"


def consts(alphabet, n, needles, delims, numbers, lengths):
    return dict(Dbg="FALSE", Alphabet="{" + ", ".join('"%s"' % c for c in alphabet) + "}", MaxLen=str(n), Needles=words(needles), Delims=words(delims), Numbers=numbers, Lengths=lengths)


def numbers(n):
    return 'UNION {[1..k -> {"1", "5", ".", "-", "+", " ", "x", "~"}] : k \\in 0..%d}' % n


def mcs(tier):
    t = tier == "thorough"
    nd = ["", "a", "b", "ab", "ba", "aa", "abab", "aaaaaaa", "~"]
    return [MC("views", consts("ab T", 5 if t else 4, nd, ["", "a", "ab", "b "], "{}", "{}"), INV, PROPS),
            MC("float", consts("", 0, [], [], numbers(5 if t else 4), "{}"), INV, PROPS),
            MC("bytes", consts("aHI ", 3, ["", "H", "aI", "HI"], ["", "H", "aI"], "{}", "{}"), INV, PROPS),
            MC("static", consts("ab V", 5 if t else 3, nd, ["", "a", "ab"], "{}", "{0,1,2,40}"), INV, PROPS)]


def session(n):
    def gen(rng):
        live = None
        ch = "ab xFNRTV~HI"
        text = lambda m: [rng.choice(rng.choice(["ab", ch, " T", "a"])) for _ in range(rng.choice([0, 1, 2, rng.randint(0, 8), rng.randint(0, min(m, 40)), rng.randint(0, m)]))]
        for _ in range(n):
            r = rng.random()
            d = {"d": text(4), "dflt": rng.random() < .4}
            if d["dflt"]:
                d["d"] = []
            if r < .12:
                yield dict(d, op=rng.choice(["lstrip", "rstrip"]), t=text(rng.choice([40, 300])))
            elif r < .2:
                t = text(rng.choice([40, 300]))
                yield {"op": "search", "t": t, "d": rng.choice([text(3), t[:rng.randint(0, len(t))], t[rng.randint(0, len(t)):], t + ["a"], ["a"] + t, t])}
            elif r < .3:
                s = rng.choice(["", "", " ", "T", "N"]) + rng.choice(["", "-", "+"]) + rng.choice([str(rng.randint(0, 9999)), "", "7", str(rng.randint(10000, 2000000))]) + rng.choice(["", ".", ".%d" % rng.randint(0, 999)]) + rng.choice(["", "", "", "x", " ", "~", "-"])
                if len(s.split(".")[0].strip(" TN+-")) > 4 and s.split(".")[1:] not in ([], [""]):
                    continue  # beyond what a float tells apart
                if s.count(".") < 2 and len(s.split(".")[-1].rstrip("x ~-")) <= 3 or "." not in s:
                    yield {"op": "float", "t": list(s)}
            elif live is None or r < .33:
                live = rng.choice([0, 1, 5, 14, 15, 16, 17, 30, 31, 255, 256, 300, rng.randint(0, 300)])
                yield {"op": "new", "n": live}
            elif r < .6:
                t = text(live)[:live]
                yield {"op": "write", "t": t}
            elif r < .7:
                yield {"op": "size", "k": rng.choice([rng.randint(0, min(live, 60)), rng.randint(0, live)])}
            elif r < .72:
                yield {"op": "over"}
            elif r < .9:
                yield dict(d, op=rng.choice(["slstrip", "srstrip"]))
            else:
                yield {"op": "ssearch", "d": text(6)}
    return gen


def gens(tier):
    return [("x%d" % j, session(600)) for j in range(60 if tier == "thorough" else 6)]


CHECK = Check("C23", [Part("Text", "text.cpp", mcs, gens, trace_consts=consts("", 0, [], [], "{}", "{}"), trace_invs=["TypeOK", "Fits"],
                           need_ops=["lstrip", "rstrip", "search", "float", "new", "write", "size", "over", "slstrip", "srstrip", "ssearch"])],
              ["numbers are plain decimals with at most three decimals"])
