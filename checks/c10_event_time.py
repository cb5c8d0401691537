from _event import *

SC = "{<<%s>>, <<%s, %s>>, <<%s>>, <<%s, %s>>}" % (A("sched", id=2, d=0, v=0), A("sched", id=1, d=1, v=0), A("delay", d=1), A("delay", d=2),
                                                    A("delay", d=2), A("sched", id=2, d=1, v=0))


def mcs(tier):
    r = [MC("order", consts("time", "{3}", delays="{0,1,2}", late=1), INV, PROPS),
         MC("handlers", consts("time", "{2,3}", delays="{1}", scripts=SC, late=0), INV, PROPS),
         MC("uptime", consts("time", "{1,2}", nids=1, hsets="{<<<<1>>>>}", delays="{1,4}", late=0, bases="0..6"), INV, PROPS),
         MC("long", consts("time", "{2}", nids=1, hsets="{<<<<1>>>>}", delays="{0,1,2}", late=1, bases="{0,3}", units="0..4"), INV, PROPS),
         MC("resched", consts("time", "{1,2}", nids=1, hsets="{<<<<1>>>>}", delays="{1,2}", nslots=1, kept="BOOLEAN", late=0, spare=1), INV, PROPS),
         MC("text", consts("time", "{2}", nids=1, hsets="{<<<<1>>>>}", advs="{86369999}", late=0, bases="{1}",
                           delays="{0,999,1000,1499,1500,899499,899500,86369999,86370000,129599999,129600000}"), INV, PROPS)]
    if tier == "thorough":
        r += [MC("order4", consts("time", "{4}", delays="{0,1,3}", late=1), INV, PROPS),
              MC("handlers3", consts("time", "{3}", delays="{0,1,2}", scripts=SC, shs="{1,2}", late=1), INV, PROPS)]
    return r


def gens(tier):
    return [("e%d-%d" % (c, j), session("time", c, 250, slots=0, big=j == 1)) for c in [1, 2, 3, 5, 8, 16] for j in range(20 if tier == "thorough" else 2)] + [("wide%d" % j, session("time", 300, 250, ids=30, nh=12, slots=0, busy=True)) for j in range(20 if tier == "thorough" else 2)] \
        + [("full%d" % j, session("time", 300, 420, slots=0, fill=290)) for j in range(4 if tier == "thorough" else 1)]


def fconsts(delays, advs, far, bases="{0}", units="{0}"):
    return dict(Bases=bases, Units=units, Delays=delays, Advs=advs, Far=str(far))


def fmcs(tier):
    t = tier == "thorough"
    return [MC("futures", fconsts("0..5" if t else "0..3", "{1,2}", 3 if t else 2), ["TypeOK", "Sorted"], []),
            MC("futures_long", fconsts("{0,1,2}", "{1}", 1, "0..6" if t else "{0,2,3,4}", "0..4"), ["TypeOK", "Sorted"], [])]


CHECK = Check("C10", [part("time", mcs, gens, ["adv", "text", "resched"]),
                      Part("Future", "future.cpp", fmcs, None, trace_consts=fconsts("{}", "{}", 0), trace_invs=["TypeOK", "Sorted"], need_ops=["new", "adv", "resched", "push", "expire"])], ASSUME)
