from check import *

# every real unit there is, in the order of the adapter's list: families of [name, factor, power of ten]
P = dict(p=-12, n=-9, u=-6, m=-3, c=-2, d=-1, k=3, M=6, G=9, T=12)


def fam(base, pre=""):
    return [(base + (("_" + p) if p != "1" else ""), 1, P.get(p, 0)) for p in (pre.split() or ["1"])]


FAMILIES = [fam("gray"), fam("mole"), fam("farad", "p n u m 1"), fam("katal"), fam("coulomb", "n u m 1"), fam("siemens", "u m 1"), fam("amp", "u m 1"),
            fam("sievert"), fam("joule", "p n u m 1 k M G T"), fam("newton", "1 k"), fam("hertz", "1 k M G"), fam("lux"), fam("henry"),
            fam("meter", "n u m c d 1 k"), fam("lumen"), fam("weber"), fam("tesla"), fam("gram", "u m 1 k"), fam("volt", "u m 1"), fam("watt", "m 1 k M G"),
            fam("pascal", "1 k M"), fam("becquerel"), fam("ohm", "m 1 k M"), fam("kelvin"), fam("celsius"),
            [("time_us", 1, -6), ("time_ms", 1, -3), ("time_s", 1, 0), ("time_m", 60, 0), ("time_h", 3600, 0), ("time_d", 86400, 0), ("time_W", 604800, 0),
             ("time_M", 2419200, 0), ("time_Y", 31536000, 0)],
            [("litre_ml", 1, -3), ("litre", 1, 0), ("cubic_metre", 1, 3)],
            [("own_%d" % e, 1, e) for e in (-18, -15, -12, -9, -6, -3, -2, -1, 0, 1, 2, 3, 6, 9, 12, 15, 18)]]
UNITS = [(n, i, f, e) for i, us in enumerate(FAMILIES) for n, f, e in us]
INDEX = {u[0]: i + 1 for i, u in enumerate(UNITS)}
TLA_UNITS = "<<" + ", ".join('[name |-> "%s", fam |-> %d, f |-> %d, e |-> %d]' % u for u in UNITS) + ">>"
KINDS = "<<[fn |-> 1, fd |-> 1], [fn |-> 1000, fd |-> 1], [fn |-> 1, fd |-> 60], [fn |-> 1000, fd |-> 60]>>"
INV, PROPS = ["TypeOK"], ["Kept", "Total", "Undo"]


def s(v):
    return "{" + ", ".join(map(str, v)) + "}"


def pq(v):
    return "{" + ", ".join("<<%d, %d>>" % x for x in v) + "}"


def consts(ladder=(), loads=(), others=(), scalars=(), pairs=(), temps=(), cloads=(), cothers=(), peak=200000, depth=1):
    fs = " @@ ".join("%d :> %d" % (INDEX[n], f) for n, f in ladder) or "<<>>"
    return dict(Units=TLA_UNITS, Fs=fs, Loads=s(loads), Others=s(others), Scalars=s(scalars), Pairs=s(pairs), Temps=s(temps), Kinds=KINDS,
                CLoads=pq(cloads), COthers=pq(cothers), Peak=peak, Depth=depth)


LENGTH = [("meter_m", 1), ("meter_c", 10), ("meter_d", 100), ("meter", 1000)]
TIME = [("time_s", 1), ("time_m", 60), ("time_h", 3600)]
MASS = [("gram", 1), ("gram_k", 1000)]
ALL = consts(pairs=[1, -3, 30, 60, 1000], temps=[0, 1, -8, 30, 36, -273, 600, 840])


def mcs(tier):
    r = [MC("pairs", ALL, INV, PROPS),
         MC("length", consts(LENGTH, [0, 1, -3, 30, 77], [0, 1, -2, 30], [2, -3, 10], peak=100000, depth=2), INV, PROPS),
         MC("time", consts(TIME, [1, -2, 90], [0, 3, 60], [2, -5], depth=2), INV, PROPS),
         MC("flow", consts(scalars=[2, -5], cloads=[(0, 1), (1, 2), (-300, 60), (1000, 7), (6000, 120)], cothers=[(1, 1), (-500, 60), (1000, 3)], depth=2), INV, PROPS)]
    if tier == "thorough":
        r += [MC("pairs+", consts(pairs=[2, 5, 9, -11, 25, 36, 49, 99, 101, 127, 255, 1023, 4095], temps=list(range(-48, 49, 6))), INV, PROPS),
              MC("length+", consts(LENGTH, [1, -3, 30], [0, 1, 7], [2, -3], peak=100000, depth=3), INV, PROPS),
              MC("mass+", consts(MASS, [1, -3, 30, 77, 999], [0, 1, -2, 30, 101], [2, -3, 10, 7], depth=3), INV, PROPS),
              MC("flow+", consts(scalars=[2, -3], cloads=[(1, 2), (-300, 60), (7000, 120)], cothers=[(-500, 60), (1000, 3)], depth=3), INV, PROPS)]
    return r


CHECK = Check("C29", [Part("Units", "units.cpp", mcs,
                           need_ops=["pair", "pcmp", "temp", "lowest", "load", "conv", "add", "sub", "mul", "div", "mulu", "divu", "neg", "cmp", "zero",
                                     "cload", "cconv", "cadd", "csub", "cneg", "cmul", "cdiv", "simplify", "ccmp", "czero"])],
              ["a value counts as right when it is within 3e-6 (a single conversion) of the exact one, or rounds to it after several operations",
               "equality is claimed only where the ratio of the units is whole and the values are exactly representable"])
