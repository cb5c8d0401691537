"""The debug build of everything: legal use never trips an internal assertion, and behaves as specified."""
import copy, importlib
from check import *
import _event

#        module            part, instances of it that are run (None: all)
USED = [("c01_ring", 0, ["c4"]), ("c02_line", 0, ["c4"]), ("c05_transaction", 1, None), ("c07_vector_owner", 0, ["c123"]),
        ("c08_array", 0, ["l03"]), ("c09_pool", 0, ["n12"]), ("c14_timers", 0, ["uptimes"]), ("c15_int_time", 0, ["huge"]), ("c16_schedule", 0, ["two"]),
        ("c17_latch", 0, None), ("c18_pid", 0, ["same", "pid"]), ("c19_autotune", 0, ["drive", "patience"]), ("c20_filters", 0, ["band", "mean", "stack", "presets"]),
        ("c21_result", 0, ["one"]), ("c22_time_text", 0, ["repr"]), ("c23_text", 0, ["static"]), ("c24_logging", 0, ["lengths"]),
        ("c26_datetime", 0, ["carry"]), ("c27_gpio", 0, ["coarse"]), ("c28_device", 0, ["deep"]), ("c29_units", 0, ["pairs"]), ("c30_helpers", 0, ["values"])]



def debug(module, i, names):
    m = importlib.import_module(module)
    p = copy.copy(m.CHECK.parts[i])
    mcs, gens = p.mcs, p.gens

    def dbg(consts):
        return dict(consts, Dbg="TRUE") if "Dbg" in consts else consts

    def few(tier):
        r = [copy.copy(x) for x in mcs("quick") if names is None or tier == "thorough" or x.name in names]
        for x in r:
            x.consts = dbg(x.consts)
            x.name = module + "-" + x.name
        return r
    p.mcs = few
    p.gens = lambda tier: gens(tier)[:None if tier == "thorough" else 2]
    p.need_ops = ()
    p.variant, p.no_assert = "dbg", "Dbg" not in (p.trace_consts or {})
    p.trace_consts = dbg(p.trace_consts) if p.trace_consts else None
    return p


def ev_mcs(tier):
    A = _event.A
    sc = "{<<%s, %s>>, <<%s>>}" % (A("sched", id=2, d=1, v=0), A("make", k=1, id=1, d=1, v=0), A("trig", id=2, v=0))
    c = _event.consts
    r = [MC("event", c("cap", "{2}", delays="{1}", nslots=1, scripts=sc, kept="BOOLEAN", dbg="TRUE"), _event.INV, _event.PROPS),
         MC("pipetext", c("time", "{2}", nids=1, hsets="{<<<<1>>>>}", advs="{86369999}", late=0, bases="{1}", dbg="TRUE",
                          delays="{999,1500,899500,86370000}"), _event.INV, _event.PROPS)]
    if tier == "thorough":
        r += [MC("event3", c("cap", "{3}", delays="{1,2}", nslots=2, scripts=sc, kept="BOOLEAN", dbg="TRUE"), _event.INV, _event.PROPS)]
    return r


def ev_gens(tier):
    return [("e%d" % c, _event.session(m, c, 250, zero=False, big=j == 1)) for j in range(20 if tier == "thorough" else 1) for c, m in [(2, "cap"), (5, "cap")]]


EVENT = Part("Event", "event.cpp", ev_mcs, ev_gens, variant="dbg", no_assert=False, trace_consts=_event.consts("cap", dbg="TRUE"), trace_invs=_event.INV,
             need_ops=["new", "sched", "script", "loop", "destroy", "probe", "make", "text"], chunk=1500)
CHECK = Check("C31", [debug(*u) for u in USED] + [EVENT],
              ["one thread; the operations and arguments each specification allows; an event scheduled with no delay counts as misuse in a debug build"])
