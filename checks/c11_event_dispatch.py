from _event import *

SC = "{<<%s, %s>>, <<%s, %s>>, <<%s, %s>>}" % (A("sched", id=2, d=0, v=2), A("sched", id=1, d=1, v=1), A("trig", id=2, v=1), A("trig", id=1, v=0),
                                             A("drop", k=1), A("make", k=1, id=1, d=0, v=2))
HS = "{<<<<1,2>>, <<3>>>>, <<<<2,1>>, <<1>>>>}"


def mcs(tier):
    r = [MC("direct", consts("data", "{2}", hsets=HS, delays="{1}", vals="{0,1,2}", kinds="<<\"ms\",\"f\">>", nslots=1, kept="BOOLEAN", late=0), INV, PROPS),
         MC("nested", consts("data", "{1,2}", hsets=HS, delays="{1}", vals="{1}", scripts=SC, nslots=1, kept="{FALSE}", late=0), INV, PROPS),
         MC("kinds", consts("data", "{1}", nids=3, hsets="{<<<<1,2>>, <<2,3,1>>, <<4>>>>}", delays="{1}", vals="0..3", late=0), INV, PROPS)]
    r += [MC("resched", consts("data", "{1,2}", nids=1, hsets="{<<<<1>>>>}", delays="{1,2}", nslots=1, kept="BOOLEAN", late=0, spare=1), INV, PROPS),
          MC("attach", consts("data", "{1}", hsets="{<<<<1>>, <<>>>>, <<<<2>>, <<3, 1>>>>}", delays="{1}", late=0, spare=1), INV, PROPS)]
    if tier == "thorough":
        r += [MC("nested2", consts("data", "{3}", hsets=HS, delays="{1}", vals="{1}", scripts=SC, shs="{1,2}", nslots=1, kept="{FALSE}", late=0), INV, PROPS),
              MC("direct3", consts("data", "{3}", hsets=HS, delays="{1}", vals="{0,1}", nslots=2, kept="BOOLEAN", late=0), INV, PROPS)]
    return r


def gens(tier):
    return [("d%d-%d" % (c, j), session("data", c, 250)) for c in [1, 2, 3, 5, 8, 16] for j in range(20 if tier == "thorough" else 2)] + [("wide%d" % j, session("data", 20, 200, ids=300, nh=40)) for j in range(10 if tier == "thorough" else 1)]


CHECK = Check("C11", [part("data", mcs, gens, ["trig", "trigh", "make", "attach", "resched"])], ASSUME)
