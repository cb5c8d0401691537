from _event import *

SC = "{<<%s>>, <<%s, %s>>}" % (A("sched", id=2, d=2, v=0), A("delay", d=2), A("sched", id=1, d=4, v=0))


def mcs(tier):
    t = "{<<TRUE,1,2>>, <<TRUE,2,1>>, <<TRUE,3,1000>>, <<FALSE,1,2>>}"
    r = [MC("sleep", consts("sleep", "{2}", nids=1, hsets="{<<<<1>>>>}", delays="{1,2,4}", late=1, ticks=t, units="{0,3}"), INV, PROPS),
         MC("handlers", consts("sleep", "{2}", delays="{1}", scripts=SC, late=0, ticks="{<<TRUE,5,3>>, <<TRUE,1,100>>}", bases="{0,1,4}"), INV, PROPS)]
    if tier == "thorough":
        r += [MC("sleep3", consts("sleep", "{3}", nids=1, hsets="{<<<<1>>>>}", delays="{1,2,3,5}", late=2, ticks=t, bases="{0,2,3}"), INV, PROPS)]
    return r


def gens(tier):
    return [("s%d-%d" % (c, j), session("sleep", c, 250, slots=0, big=j == 1)) for c in [1, 2, 3, 5, 8] for j in range(20 if tier == "thorough" else 2)]


CHECK = Check("C13", [part("sleep", mcs, gens, ["adv"])], ASSUME + ["configured bounds are whole milliseconds"])
