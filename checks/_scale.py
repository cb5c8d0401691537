from check import *


def scale(kind):
    """containers beyond what 8 and 16 bits count"""
    def consts(kinds, caps, amounts, depth):
        return dict(Kinds=kinds, Caps=caps, Amounts=amounts, Depth=depth)

    def mcs(tier):
        k = '{"%s"}' % kind
        r = [MC("s8", consts(k, "{255, 256, 300}", "{1, 255}", "3" if tier == "thorough" and kind != "vector" else "2"), ["TypeOK"], ["Conserved"]), MC("s16", consts(k, "{65536, 66000}", "{1}", "2"), ["TypeOK"], ["Conserved"])]
        return r + ([MC("s16b", consts(k, "{70000}", "{1}" if kind == "vector" else "{65535, 65536}", "3"), ["TypeOK"], ["Conserved"])] if tier == "thorough" else [])
    return Part("Scale", "scale.cpp", mcs, None, trace_consts=consts("{}", "{}", "{}", "1"), trace_invs=["TypeOK"],
                need_ops=["new", "push"] + dict(ring=["pop", "dropl", "dropf"], vector=["pushf", "pop", "popb"], stack=["popb"])[kind])


def flow(mode):
    """a stream and its transactions beyond what 8 and 16 bits count"""
    def consts(caps, depth):
        return dict(Caps=caps, Amounts="{1}", Depth=str(depth), Mode='"%s"' % mode)

    def mcs(tier):
        d = dict(_in=5, out=4, tx=6)[mode if mode != "in" else "_in"] + (1 if tier == "thorough" else 0)
        return [MC(n, consts(c, d), ["TypeOK"], ["Kept", "Conserved"]) for n, c in [("f8", "{256, 300}"), ("f16", "{66000}")]]
    ops = {"in": ["feed", "mark", "pull", "view", "copy", "drop"], "out": ["queue", "flush"], "tx": ["feed", "mark", "pull", "queue", "flush", "begin", "reply", "commit", "abort"]}
    return Part("Flow", "flow.cpp", mcs, None, trace_consts=consts("{}", 1), trace_invs=["TypeOK"], need_ops=["new"] + ops[mode])
