from _event import *

SC = "{<<%s, %s>>, <<%s>>, <<%s, %s>>}" % (A("sched", id=1, d=0, v=0), A("sched", id=2, d=1, v=0), A("trig", id=1, v=0), A("make", k=1, id=1, d=1, v=0), A("drop", k=2))
H1 = "{<<<<1>>>>}"


def mcs(tier):
    r = [MC("slots", consts("cap", "{1,2,3}", nids=1, hsets=H1, delays="{1}", vals="{0}", nslots=2, kept="BOOLEAN", late=0), INV, PROPS),
         MC("handlers", consts("cap", "{1,2}", delays="{1}", scripts=SC, nslots=2, kept="BOOLEAN", late=0), INV, PROPS)]
    if tier == "thorough":
        r += [MC("slots4", consts("cap", "{4}", nids=1, hsets=H1, delays="{1,2}", nslots=3, kept="BOOLEAN", late=1), INV, PROPS),
              MC("handlers3", consts("cap", "{3}", delays="{1}", scripts=SC, shs="{1,2}", nslots=2, kept="BOOLEAN", late=0), INV, PROPS)]
    return r


def gens(tier):
    return [("c%d-%d" % (c, j), session("cap", c, 250)) for c in [1, 2, 3, 5, 8, 16, 300] for j in range(20 if tier == "thorough" else 2)] + [("full%d" % j, session("cap", 270, 420, fill=280)) for j in range(4 if tier == "thorough" else 1)]


CHECK = Check("C12", [part("cap", mcs, gens, ["trig", "make", "probe", "drop", "schedh"])], ASSUME)
