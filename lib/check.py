"""A check = one property decided by one or more parts (spec + adapter + bounded instances + random histories)."""
import concurrent.futures as cf, json, os, shutil, sys, time, traceback
import mbv
from mbv import CheckError, Violation


class MC:
    """A bounded instance of a specification."""
    def __init__(self, name, consts, invs=(), props=(), emit=True, tour=True):
        self.name, self.consts, self.invs, self.props, self.emit, self.tour = name, consts, invs, props, emit, tour


class Part:
    """spec + adapter. mcs(tier) -> [MC]; gens(tier) -> [(name, generator function)]"""
    def __init__(self, spec, harness, mcs=None, gens=None, variant="rel", flags=(), trace_consts=None, trace_invs=(),
                 need_ops=(), no_assert=None, chunk=6000, maxlen=400):
        self.spec, self.harness, self.variant, self.flags = spec, harness, variant, tuple(flags)
        self.mcs = mcs or (lambda tier: [])
        self.gens = gens or (lambda tier: [])
        self.trace_consts, self.trace_invs, self.need_ops = trace_consts, trace_invs, need_ops
        self.no_assert = (variant == "dbg") if no_assert is None else no_assert
        self.chunk, self.maxlen = chunk, maxlen


class Check:
    def __init__(self, pid, parts, assumptions=()):
        self.pid, self.parts, self.assumptions = pid, parts, list(assumptions)


def known_findings(pid):
    p = os.path.join(mbv.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)) if e["property"] == pid and e["status"] == "known"]


def write_replay(pid, part, v, extra):
    d = os.path.join(mbv.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % pid)
    with open(path, "w") as f:
        json.dump(dict(property=pid, spec=part.spec, harness=part.harness, variant=part.variant, flags=part.flags,
                       why=v.why, how_to="python3 run.py %s --replay %s" % (pid, path), **extra, **v.replay), f, indent=1)
    return path


def run(check, tier, seed):
    t0 = time.time()
    work = os.path.join(mbv.BUILD, "work", "%s-%d" % (check.pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, spec_transitions_executed_on_impl=0,
               operations_executed_on_impl=0, recorded_events_validated=0, instances=[], tours_complete=True,
               per_operation={}, samples=[])
    viol = None
    vpart = None
    try:
        viol, vpart = _run(check, tier, seed, work, cov)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ev = dict(property=check.pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=check.assumptions, wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    os.makedirs(os.path.join(mbv.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(mbv.VERIF, "evidence", check.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        path = write_replay(check.pid, vpart, viol, {})
        print("%s: %s" % (check.pid, viol.why))
        rp = viol.replay
        print("  after operations: %s" % json.dumps(rp.get("ops", [])[-12:]))
        print("  got:      %s" % json.dumps(rp.get("got")))
        print("  expected: %s" % json.dumps(rp.get("expected", "see replay"))[:2000])
        print("VIOLATION property=%s replay=%s" % (check.pid, path))
        return 1
    print("%s held: %d states, %d transitions, %d of them executed on the code, %d operations, %d recorded events "
          "validated, %.1fs" % (check.pid, cov["states"], cov["transitions"], cov["spec_transitions_executed_on_impl"],
                                cov["operations_executed_on_impl"], cov["recorded_events_validated"], time.time() - t0))
    return 0


def _count(cov, ops):
    for o in ops:
        cov["per_operation"][o["op"]] = cov["per_operation"].get(o["op"], 0) + 1


def _run(check, tier, seed, work, cov):
    thorough = tier == "thorough"
    budget, seconds = (3000000, 1500) if thorough else (400000, 240)
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        builds = {}
        for p in check.parts:
            k = (p.harness, p.variant, p.flags)
            if k not in builds:
                builds[k] = None
        # compile first (fast when cached), specs concurrently
        def do_builds():
            firsts = {k[1:]: k for k in reversed(builds)}      # each library once, then the adapters side by side
            for k in firsts.values():
                builds[k] = mbv.build(*k)
            with cf.ThreadPoolExecutor(8) as pool:
                for k, exe in zip(builds, pool.map(lambda k: mbv.build(*k), list(builds))):
                    builds[k] = exe
        fb = ex.submit(do_builds)
        mcs = []
        for pi, p in enumerate(check.parts):
            for m in p.mcs(tier):
                mcs.append((p, m, ex.submit(mbv.model_check, "p%d-%s" % (pi, m.name), p.spec, m.consts, m.invs, m.props,
                                            work, 5400 if thorough else 400, 3 if not thorough else 4, m.emit)))
        fb.result()
        graphs = [(p, m, f.result()) for p, m, f in mcs]
    for p, m, g in graphs:
        cov["states"] += g.tlc_states
        cov["transitions"] += g.edges if m.emit else g.tlc_generated
        cov["instances"].append(dict(spec=p.spec, instance=m.name, constants=m.consts, states=g.tlc_states,
                                     transitions=g.edges, generated=g.tlc_generated, invariants=list(m.invs) + list(m.props)))
        if m.emit:
            names = {op["op"] for s in g.out for op, _ in s.values()}
            missing = [o for o in p.need_ops if o not in names]
            if missing and m.tour:
                cov.setdefault("operations_not_in_instance", []).append({m.name: missing})
    # model -> code
    for pi, p in enumerate(check.parts):
        exe = builds[(p.harness, p.variant, p.flags)]
        gs = [(m, g) for q, m, g in graphs if q is p and m.tour and m.emit]
        if not gs:
            continue
        seen = {op["op"] for m, g in gs for s in g.out for op, _ in s.values()}
        miss = [o for o in p.need_ops if o not in seen]
        if miss:
            raise CheckError("vacuous: no instance of %s ever takes %s" % (p.spec, miss))
        res = mbv.run_tours([g for _, g in gs], exe, work, seed, budget, seconds, p.no_assert, p.maxlen)
        for gi in range(len(gs)):   # walkers (forked: same string hashes) may overlap
            n = len(set().union(*[r["covered"] for i, r in res if i == gi]))
            if not n and not any(r["violation"] for i, r in res):
                raise CheckError("nothing of %s was executed" % p.spec)
            cov["spec_transitions_executed_on_impl"] += n
        for gi, r in res:
            cov["operations_executed_on_impl"] += r["ops"]
            cov["traces_validated_against_impl"] += r["sessions"]
            if r["violation"] is None and not r["complete"]:
                cov["tours_complete"] = False
            if len(cov["samples"]) < 4:
                cov["samples"].append({"spec_walk": r["sample"]})
        for gi, r in res:
            if r["violation"]:
                why, rp, full = r["violation"]
                v = mbv.rerun(gs[gi][1], exe, work, rp["ops"], p.no_assert)
                if v is not None:
                    return shorten(gs[gi][1], exe, work, v, p.no_assert), p
                # it may need what the same process did before: repeat the whole walk
                v = mbv.rerun(gs[gi][1], exe, work, full, p.no_assert)
                if v is None and "ERROR: AddressSanitizer" in why:
                    return mbv.Violation(why, dict(rp, ops=[o for o in full if o])), p
                if v is None:
                    raise CheckError("%s: %s, but repeating the walk does not show it again: %s" % (p.spec, why, rp))
                v.replay["ops"] = [o for o in full if o]
                return v, p
        for m, g in gs:
            for s in g.out:
                for op, _ in s.values():
                    cov["per_operation"][op["op"]] = cov["per_operation"].get(op["op"], 0) + 1
        for q, m, g in graphs:
            if q is p:
                g.out = g.ids = None
    # code -> model
    for pi, p in enumerate(check.parts):
        exe = builds[(p.harness, p.variant, p.flags)]
        gens = p.gens(tier)
        if not gens:
            continue
        try:
            sessions = mbv.record(exe, work, gens, seed, p.no_assert)
        except Violation as v:
            # confirm from a fresh process; it may need what the same process did before
            before = v.replay.pop("before", [])
            for ops in ([v.replay["ops"]], [before + v.replay["ops"]] * 3)[:2 if before else 1]:
                for o in ops:
                    ev, crash = mbv.replay_ops(exe, work, o)
                    if crash or (p.no_assert and any(g.get("_a") for _, g in ev)):
                        v.replay["ops"] = o[:len(ev) + 1]
                        return v, p
            if "ERROR: AddressSanitizer" in v.why or "runtime error: " in v.why:
                return v, p     # seen by the sanitizer: memory was misused, whether or not it shows again
            raise CheckError("unreproducible: %s" % v.why)
        chunks, cur = [], []
        for name, ev in sessions:
            cur.append((name, ev))
            if sum(len(e) for _, e in cur) >= p.chunk:
                chunks.append(cur)
                cur = []
        if cur:
            chunks.append(cur)
        with cf.ThreadPoolExecutor(max_workers=mbv.NCPU) as ex:
            fs = [ex.submit(mbv.validate, "v%d-%d" % (pi, ci), p.spec, [e for _, ev in c for e in ev], work,
                            p.trace_consts, p.trace_invs, 3000 if thorough else 500) for ci, c in enumerate(chunks)]
            acc = [f.result() for f in fs]
        for ci, (c, n) in enumerate(zip(chunks, acc)):
            events = [e for _, ev in c for e in ev]
            cov["recorded_events_validated"] += n
            cov["operations_executed_on_impl"] += len(events)
            _count(cov, [o for o, _ in events])
            if n >= len(events):
                cov["traces_validated_against_impl"] += len(c)
                if len(cov["samples"]) < 6:
                    cov["samples"].append({"recorded": [list(e) for e in events[:5]], "session": c[0][0]})
                continue
            # rejected at events[n]: find its session, run it again, have it validated again
            k = n
            for name, ev in c:
                if k < len(ev):
                    break
                k -= len(ev)
            ops = [o for o, _ in ev[:k + 1]]
            ev2, crash = mbv.replay_ops(exe, work, ops)
            n2 = mbv.validate("confirm%d" % pi, p.spec, ev2, work, p.trace_consts, p.trace_invs)
            if crash or n2 < len(ev2):
                bad = ev2[n2] if n2 < len(ev2) else (ops[-1], crash)
                return Violation("a recorded execution is not a behaviour of the specification (session %s)" % name,
                                 {"ops": ops[:n2 + 1], "got": bad[1],
                                  "expected": "no transition of the spec for this operation yields this observation",
                                  "before": ev2[max(0, n2 - 3):n2]}), p
            ev3, crash = mbv.replay_ops(exe, work, [o for o, _ in events[:n + 1]])    # with the sessions before it
            n3 = mbv.validate("confirm%d" % pi, p.spec, ev3, work, p.trace_consts, p.trace_invs)
            if crash or n3 < len(ev3):
                return Violation("a recorded execution is not a behaviour of the specification (session %s and before)" % name,
                                 {"ops": [o for o, _ in ev3[:n3 + 1]], "got": crash or ev3[n3][1], "before": ev3[max(0, n3 - 3):n3]}), p
            raise CheckError("rejected trace not reproducible (session %s): %s" % (name, json.dumps(events[n])[:800]))
    # known findings still present are reported, never counted
    for e in known_findings(check.pid):
        print("KNOWN-FINDING: property=%s %s" % (check.pid, e["text"]))
    return None, None


def shorten(g, exe, work, v, no_assert):
    """Greedy removal of operations while the disagreement remains (bounded effort)."""
    t0 = time.time()
    best = v
    ops = list(v.replay["ops"])
    i = len(ops) - 2
    while i > 0 and time.time() - t0 < 8:
        cand = ops[:i] + ops[i + 1:]
        try:
            nv = mbv.rerun(g, exe, work, cand, no_assert)
        except CheckError:
            nv = None
        if nv is not None and len(nv.replay["ops"]) < len(ops):
            best, ops = nv, list(nv.replay["ops"])
            i = min(i, len(ops) - 1)
        i -= 1
    return best


def main(check, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--seed" in argv:
        seed = int(argv[argv.index("--seed") + 1])
    try:
        if "--replay" in argv:
            return replay(check, argv[argv.index("--replay") + 1])
        return run(check, tier, seed)
    except CheckError as e:
        print("CHECK ERROR %s: %s" % (check.pid, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


def replay(check, path):
    d = json.load(open(path))
    exe = mbv.build(d["harness"], d["variant"], tuple(d["flags"]))
    work = os.path.join(mbv.BUILD, "work", "replay-%d" % os.getpid())
    os.makedirs(work)
    try:
        part = [p for p in check.parts if p.spec == d["spec"]][0]
        ev, crash = mbv.replay_ops(exe, work, d["ops"])
        for o, r in ev:
            print(json.dumps(o), "->", json.dumps(r))
        if crash:
            print("CRASH", crash)
            return 1
        n = mbv.validate("r", part.spec, ev, work, part.trace_consts)
        print("the specification accepts %d of %d events" % (n, len(ev)))
        return 0 if n == len(ev) else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)
