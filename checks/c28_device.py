from check import *

INV, PROPS = ["TypeOK"], ["Clock", "Apart", "Queue"]


def consts(ins, outs, vals, bulk, us, ms, cap):
    return dict(Ins=ins, Outs=outs, Vals=vals, Bulk=bulk, Micros=us, Millis=ms, MaxMs=str(cap))


def mcs(tier):
    t = tier == "thorough"
    return [MC("bytes", consts("{1,2,3}" if t else "{1,3}", "{1,2,3}" if t else "{2}", "{0,255}", "{0,2,3}" if t else "{0,2}", "{}", "{}", 0), INV, PROPS),
            MC("deep", consts("{4}", "{5}" if t else "{3}", "{7}", "{0,3,6}", "{}", "{}", 0), INV, PROPS),
            MC("clock", consts("{1}", "{1}", "{}", "{}", "{0,1,333,999,1000,1001,65536}" if t else "{0,50,350,950,1000,1050,65550}", "{0,1,7,1000}", 300 if t else 60), INV, PROPS)]


def session(n):
    def gen(rng):
        left = n
        while left > 0:
            cin, cout = rng.choice([1, 2, 5, 16, 33, 64]), rng.choice([1, 2, 5, 16, 33, 64])
            got = yield {"op": "new", "cin": cin, "cout": cout}
            left -= 1
            spent = 0
            for _ in range(rng.randint(5, 120)):
                left -= 1
                k = rng.random()
                via = rng.choice(["mock", "uart", "uart2"])
                if k < .2:
                    op = {"op": "inject", "vs": [rng.randint(0, 255) for _ in range(rng.choice([0, 1, 2, rng.randint(0, cin + 3)]))]}
                elif k < .3:
                    op = {"op": "extract"}
                elif k < .5:
                    how = rng.choice(["bytes", "chars", "view", "byte", "char"])
                    m = 1 if how in ("byte", "char") else rng.choice([0, got["room"], got["room"] + 1, rng.randint(0, cout + 3)])
                    op = {"op": "write", "vs": [rng.randint(0, 255) for _ in range(m)], "via": via, "how": how}
                elif k < .75:
                    how = rng.choice(["bytes", "chars", "byte"])
                    m = 1 if how == "byte" else rng.choice([0, 1, got["avail"], got["avail"] + 1, rng.randint(0, cin + 3)])
                    op = {"op": "read", "n": m, "via": via, "how": how}
                elif k < .8:
                    op = {"op": rng.choice(["flush", "start"]), "via": via}
                else:
                    how = rng.choice(["delay", "delay_ms", "delay_ms_int", "delay_us", "delay_us_int"])
                    m = rng.choice([0, 1, 999, 1000, rng.randint(0, 5000), rng.randint(0, 5000000), 60000000])
                    spent += m if how in ("delay", "delay_ms", "delay_ms_int") else m // 1000 + 1
                    if spent > 2000000000:
                        continue
                    op = {"op": "wait", "how": how, "n": m}
                got = yield op
    return gen


def gens(tier):
    return [("d%d" % j, session(500)) for j in range(60 if tier == "thorough" else 6)]


CHECK = Check("C28", [Part("Device", "device.cpp", mcs, gens, trace_consts=consts("{}", "{}", "{}", "{}", "{}", "{}", 0), need_ops=["new", "inject", "extract", "write", "read", "flush", "start", "wait"], maxlen=700)],
              ["the clock stays below 2^31 ms", "one thread"])
