"""Driver: binds a TLA+ specification to the real code in both directions.

 model -> code : TLC enumerates the bounded instance of a spec and prints every transition; every transition is
                 executed on the real object (through an adapter built from /repo's working tree) and the observation
                 compared with the one the spec prescribes.
 code -> model : random histories executed on the real object are recorded and validated by TLC against the spec.
"""
import multiprocessing.pool
import collections, re, glob, hashlib, json, multiprocessing, os, random, select, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MBV_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The check could not give an answer (never a violation)."""


class Violation(Exception):
    def __init__(self, why, replay):
        super().__init__(why)
        self.why, self.replay = why, replay


# ----------------------------------------------------------------------------------------------- building the code

VARIANTS = {
    "rel": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "dbg": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-DDEBUG_SPINE"],
}
BASE = ["-std=gnu++17", "-DNATIVE", "-I" + os.path.join(REPO, "src"), "-I" + HARN, "-w"]


def _sources_digest():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, "src"))):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def _stand_ins(flags):
    """the library itself is compiled against these"""
    h = hashlib.sha256()
    for d in sorted(f[2:] for f in flags if f.startswith("-I")):
        for root, dirs, files in sorted(os.walk(d)):
            for f in sorted(files):
                with open(os.path.join(root, f), "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def _compile(args):
    src, obj, flags = args
    r = subprocess.run(["g++", *BASE, *flags, "-c", src, "-o", obj], capture_output=True, text=True)
    return src, r.returncode, r.stderr


def build(harness, variant="rel", extra=()):
    """Build one adapter against the working tree. Everything is rebuilt whenever any source changed."""
    flags = VARIANTS[variant] + list(extra)
    dig = _sources_digest()
    key = hashlib.sha256((dig + _stand_ins(flags) + repr(flags)).encode()).hexdigest()[:20]
    libdir = os.path.join(BUILD, "lib-" + variant + "-" + key)
    lib = os.path.join(libdir, "libspine.a")
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(HARN)):
        for f in sorted(files):
            if not f.endswith(".cpp"):
                with open(os.path.join(root, f), "rb") as fh:
                    h.update(fh.read())
    with open(os.path.join(HARN, harness), "rb") as f:
        h.update(f.read())
    exe = os.path.join(libdir, harness.replace(".cpp", "-") + h.hexdigest()[:16])
    if os.path.exists(exe):
        return exe
    tmp = libdir + ".%d-%d" % (os.getpid(), threading.get_ident())
    os.makedirs(tmp, exist_ok=True)
    try:
        jobs = [(os.path.join(HARN, harness), os.path.join(tmp, "adapter.o"), flags)]
        if not os.path.exists(lib):
            srcs = sorted(glob.glob(os.path.join(REPO, "src", "spine", "**", "*.cpp"), recursive=True))
            jobs += [(s, os.path.join(tmp, "s%d.o" % i), flags) for i, s in enumerate(srcs)]
        with multiprocessing.pool.ThreadPool(NCPU) as pool:
            for src, rc, err in pool.imap_unordered(_compile, jobs):
                if rc != 0:
                    raise CheckError("does not compile: %s\n%s" % (src, err[-3000:]))
        # keep at most the current library and the two previous ones
        if not os.path.exists(lib):
            olds = sorted(glob.glob(os.path.join(BUILD, "lib-*")), key=os.path.getmtime)
            for o in [o for o in olds if o.count(".") == 0][:-4]:
                shutil.rmtree(o, ignore_errors=True)
            os.makedirs(libdir, exist_ok=True)
            objs = sorted(glob.glob(os.path.join(tmp, "s*.o")))
            r = subprocess.run(["ar", "rcs", os.path.join(tmp, "l.a"), *objs], capture_output=True, text=True)
            if r.returncode:
                raise CheckError("ar: " + r.stderr)
            os.replace(os.path.join(tmp, "l.a"), lib)
        r = subprocess.run(["g++", *flags, os.path.join(tmp, "adapter.o"), "-Wl,--start-group", lib, "-Wl,--end-group",
                            "-o", os.path.join(tmp, "x")], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("does not link: %s\n%s" % (harness, r.stderr[-3000:]))
        os.replace(os.path.join(tmp, "x"), exe)
        return exe
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ----------------------------------------------------------------------------------------------- the real object

class Crash(Exception):
    pass


class Adapter:
    def __init__(self, exe, workdir, timeout=90):
        self.timeout = timeout
        self.errpath = os.path.join(workdir, "stderr.%d.%d" % (os.getpid(), random.SystemRandom().getrandbits(40)))
        self.err = open(self.errpath, "wb")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:"
                   "detect_stack_use_after_return=1", TZ="UTC", LC_ALL="C.UTF-8")
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env,
                                  cwd=workdir)
        self.fd = self.p.stdout.fileno()
        self.buf = b""
        self.dead = False

    def op(self, op):
        self.send([op])
        return self.recv()

    def send(self, ops):
        try:
            self.p.stdin.write("".join([json.dumps(op) + "\n" for op in ops]).encode())
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            self.dead = True    # answers to earlier operations may still be in the pipe

    def recv(self):
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.fd], [], [], self.timeout)
            if not r:
                self.p.kill()
                raise Crash(self.diagnose("no answer within %d s (endless loop)" % self.timeout))
            d = os.read(self.fd, 1 << 16)
            if not d:
                raise Crash(self.diagnose("died"))
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def diagnose(self, what):
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        if self.p.returncode == 97:
            with open(self.errpath, errors="replace") as f:
                raise CheckError("adapter refused an operation: " + f.read()[-500:])
        with open(self.errpath, errors="replace") as f:
            lines = [l for l in f.read().splitlines() if l.strip()]
        return "%s (exit %s)%s" % (what, self.p.returncode, ": " + " | ".join(lines[:14]) if lines else "")

    def close(self):
        try:
            self.p.stdin.close()
            self.p.stdout.close()
        except OSError:
            pass
        self.p.kill()
        self.p.wait()
        self.err.close()
        try:
            os.unlink(self.errpath)
        except OSError:
            pass


# ----------------------------------------------------------------------------------------------- TLC

def tlc(workdir, module, text, cfg, workers, timeout, env=None, extra=(), heap="6g"):
    os.makedirs(workdir, exist_ok=True)
    with open(os.path.join(workdir, module + ".tla"), "w") as f:
        f.write(text)
    with open(os.path.join(workdir, module + ".cfg"), "w") as f:
        f.write(cfg)
    meta = os.path.join(workdir, "meta-" + module)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + workdir, "-DTLA-Library=" + SPEC, "-cp", TLA_CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-nowarning", "-config", module + ".cfg",
           *extra, module + ".tla"]
    out = os.path.join(workdir, module + ".out")
    try:
        with open(out, "wb") as fo:
            r = subprocess.run(cmd, cwd=workdir, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout,
                               env=dict(os.environ, **(env or {})))
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, out


class Graph:
    def __init__(self):
        self.ids = {}
        self.out = []      # node -> {opkey: [op, [(r, target)...]]}
        self.init = None
        self.edges = 0
        self.tlc_states = self.tlc_generated = 0

    def node(self, s):
        s = json.dumps(s, sort_keys=True)   # field order in TLC's output is not canonical
        i = self.ids.get(s)
        if i is None:
            i = self.ids[s] = len(self.out)
            self.out.append({})
        return i


def model_check(name, spec, consts, invs, props, workdir, timeout=600, workers=NCPU, emit=True, ops=None):
    """Exhaustively check the bounded instance; return its labelled transition graph."""
    mod = spec + "_MC"
    t = ["---- MODULE %s ----" % mod, "EXTENDS %s, Json" % spec]
    cfg = ["SPECIFICATION MCSpec", "CHECK_DEADLOCK FALSE", "VIEW MCView"]
    for k, v in consts.items():
        t.append("mc_%s == %s" % (k, v))
        cfg.append("CONSTANT %s <- mc_%s" % (k, k))
    t += ["MCView == st",
          "MCNext == \\E op \\in MCOps : Step(op)",
          "MCSpec == Init /\\ [][MCNext]_<<st, obs>>",
          'MCEmit == PrintT(ToJson([s |-> st, o |-> obs\'.op, r |-> obs\'.r, t |-> st\']))',
          'MCRoot == (obs.op.op = "init") => PrintT(ToJson([root |-> st]))',
          "===="]
    if emit:
        cfg.append("ACTION_CONSTRAINT MCEmit")
        cfg.append("CONSTRAINT MCRoot")
    cfg += ["INVARIANT " + i for i in invs] + ["PROPERTY " + p for p in props]
    rc, out = tlc(os.path.join(workdir, name), mod, "\n".join(t), "\n".join(cfg) + "\n", workers, timeout)
    g = Graph()
    tail = collections.deque(maxlen=60)
    seen = set()
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"{'):
                d = json.loads(json.loads(line))
                if "root" in d:
                    g.init = g.node(d["root"])
                    continue
                s, tt = g.node(d["s"]), g.node(d["t"])
                k = json.dumps(d["o"], sort_keys=True)
                e = g.out[s].setdefault(k, [d["o"], []])
                item = (d["r"], tt)
                if item not in e[1]:
                    e[1].append(item)
                    g.edges += 1
            else:
                tail.append(line.rstrip())
                m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
                if m:
                    g.tlc_generated, g.tlc_states = int(m[1]), int(m[2])
    text = "\n".join([l for l in tail if l.strip() and not re.match("Parsing file|Semantic processing|TLC2|Running|Residual", l)][-25:])
    if rc != 0:
        raise CheckError("TLC rejects the specification %s/%s (exit %d):\n%s" % (spec, name, rc, text))
    os.unlink(out)
    if emit and (g.init is None or not g.out[g.init]):
        raise CheckError("TLC printed no initial state for %s:\n%s" % (spec, text))
    if emit and len(g.out) != g.tlc_states:
        raise CheckError("%s/%s: %d states printed, %d found by TLC" % (spec, name, len(g.out), g.tlc_states))
    return g


def validate(name, spec, events, workdir, consts=None, invs=(), timeout=600):
    """Number of leading events (op, observation) the spec accepts."""
    d = os.path.join(workdir, name)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "trace.ndjson")
    with open(path, "w") as f:
        for o, r in events:
            f.write(json.dumps({"op": o, "r": r}) + "\n")
    mod = spec + "_Trace"
    t = ["---- MODULE %s ----" % mod, "EXTENDS %s, Json, IOUtils" % spec]
    cfg = ["SPECIFICATION TraceSpec", "POSTCONDITION TraceReport", "CHECK_DEADLOCK FALSE"]
    for k, v in (consts or {}).items():
        t.append("mc_%s == %s" % (k, v))
        cfg.append("CONSTANT %s <- mc_%s" % (k, k))
    t += ["Trace == ndJsonDeserialize(IOEnv.MBV_TRACE)",
          "TraceLen == Len(Trace)",
          "VARIABLE l",
          "TraceInit == Init /\\ l = 1",
          "TraceMatch(e, g) == \\A f \\in DOMAIN e : f \\in DOMAIN g /\\ g[f] = e[f]",
          "TraceNext == /\\ l <= TraceLen /\\ l' = l + 1",
          "             /\\ Step(Trace[l].op)",
          "             /\\ TraceMatch(obs'.r, Trace[l].r)",
          "TraceSpec == TraceInit /\\ [][TraceNext]_<<st, obs, l>>",
          'TraceReport == PrintT("ACCEPTED " \\o ToString(TLCGet("stats").diameter - 1))',
          "===="]
    cfg += ["INVARIANT " + i for i in invs]
    rc, out = tlc(d, mod, "\n".join(t), "\n".join(cfg) + "\n", 1, timeout, env={"MBV_TRACE": path})
    with open(out, errors="replace") as f:
        text = f.read()
    n = None
    for line in text.splitlines():
        if line.startswith('"ACCEPTED '):
            n = int(line.strip().strip('"').split()[1])
    if n is None:
        raise CheckError("TLC could not validate a trace of %s (exit %d):\n%s" % (spec, rc, text[-3000:]))
    return n


# ----------------------------------------------------------------------------------------------- model -> code

def matches(r, g):
    for k, v in r.items():
        if k not in g or g[k] != v or type(g[k]) is not type(v):
            return False
    return True


def expected_text(group):
    return [r for r, _ in group[1]]


class Walk:
    """Executes transitions of a graph on the real object, tracking every model state the object may be in."""

    def __init__(self, g, exe, workdir, no_assert):
        self.g, self.exe, self.workdir, self.no_assert = g, exe, workdir, no_assert
        self.ad = None
        self.ops = self.sessions = 0
        self.covered = set()
        self.visited = {}        # (node, opkey) -> targets the real object was seen to take
        self.hist = []           # operations since the last restart
        self.full = []           # operations since the process was started; None: restart
        self.cur = []

    def restart(self):
        self.cur = [self.g.init]
        self.hist = []
        self.full.append(None)
        self.sessions += 1

    def adapter(self):
        if self.ad is None:
            self.ad = Adapter(self.exe, self.workdir)
        return self.ad

    def step(self, key):
        self.run([key])

    def run(self, keys):
        """Send a batch of operations, then check every answer in turn. All but the last must be such that the
        model leaves one possible next state (so that the next operation is known to be enabled)."""
        ops = []
        for key in keys:
            if not ops:
                ops.append(next(self.g.out[n][key][0] for n in self.cur if key in self.g.out[n]))
            else:
                ops.append(json.loads(key))
        ad = self.adapter()
        ad.send(ops)
        for key, op in zip(keys, ops):
            self.hist.append(op)
            self.full.append(op)
            self.ops += 1
            try:
                got = ad.recv()
            except Crash as c:
                self.ad.close()
                self.ad = None
                raise Violation("the code crashed: %s" % c, {"ops": list(self.hist), "got": str(c)})
            self.judge(key, got)

    def judge(self, key, got):
        if self.no_assert and got.get("_a"):
            raise Violation("internal assertion fired on legal use: %s" % got.get("_am"),
                            {"ops": list(self.hist), "got": got})
        groups = [(n, self.g.out[n][key]) for n in self.cur if key in self.g.out[n]]
        nxt = []
        for n, grp in groups:
            seen = self.visited.setdefault((n, key), set())
            for i, (r, t) in enumerate(grp[1]):
                if matches(r, got):
                    self.covered.add((n, key, i))
                    seen.add(t)
                    if t not in nxt:
                        nxt.append(t)
        if not nxt:
            raise Violation("the code's observation is not one the specification allows",
                            {"ops": list(self.hist), "got": got,
                             "expected": [e for _, grp in groups for e in expected_text(grp)]})
        self.cur = nxt

    def enabled(self):
        ks = None
        for n in self.cur:
            s = self.g.out[n]
            ks = list(s) if ks is None else [k for k in ks if k in s]
        return ks or []

    def covered_ids(self):
        return {hash((n, k, i)) for n, k, i in self.covered}

    def close(self):
        if self.ad:
            self.ad.close()
            self.ad = None


def tour(g, exe, workdir, share, rng, budget, deadline, no_assert=False, maxlen=400):
    """Cover every (state, operation) group of this walker's share (i, k) of the states."""
    w = Walk(g, exe, workdir, no_assert)
    todo = [None] * len(g.out)  # node -> list of unvisited keys (lazily)
    adj = [None] * len(g.out)   # node -> ({target: key} where the model leaves one target, keys where it leaves several)

    def edges(n):
        e = adj[n]
        if e is None:
            e = ({}, [])
            for k, (_, es) in g.out[n].items():
                ts = {t for _, t in es}
                if len(ts) == 1:
                    t = ts.pop()
                    if t != n:
                        e[0].setdefault(t, k)
                else:
                    e[1].append(k)
            adj[n] = e
        return e

    def unvisited(n):
        l = todo[n]
        if l is None:
            # what the code does where the model leaves a choice must be seen even at other walkers' states
            l = list(g.out[n]) if (n * 2654435761 >> 7) % share[1] == share[0] else list(edges(n)[1])
            rng.shuffle(l)
            todo[n] = l
        while l and (n, l[-1]) in w.visited:
            l.pop()
        return l

    def search(src, limit):
        """path of op keys from src to a nearest node that has something unvisited"""
        if unvisited(src):
            return []
        prev = {src: None}
        q = collections.deque([src])
        while q:
            n = q.popleft()
            det, multi = edges(n)
            moves = list(det.items())
            for k in multi:
                # follow what the code was seen to do
                moves += [(t, k) for t in w.visited.get((n, k), ())]
            for t, k in moves:
                if t in prev:
                    continue
                prev[t] = (n, k)
                if unvisited(t):
                    path = []
                    while prev[t] is not None:
                        n2, k2 = prev[t]
                        path.append(k2)
                        t = n2
                    return path[::-1]
                q.append(t)
            if len(prev) > limit:
                return None
        return None

    tree = []                   # nodes in order of distance from the start over determined transitions
    par = {}
    at = [0]

    def from_start():
        """path of op keys from the initial state to one that has something unvisited, or None"""
        if not tree:
            par[g.init] = None
            tree.append(g.init)
            for n in tree:
                for t, k in edges(n)[0].items():
                    if t not in par:
                        par[t] = (n, k)
                        tree.append(t)
        while at[0] < len(tree):
            t = tree[at[0]]
            if unvisited(t):
                path = []
                while par[t] is not None:
                    t, k = par[t]
                    path.append(k)
                return path[::-1]
            at[0] += 1
        return search(g.init, 1 << 60)      # behind a transition that leaves a choice

    def plan(n, limit):
        """operations to execute from n, as long as the model determines where each leads"""
        keys = []
        while len(keys) < limit:
            u = unvisited(n)
            if u:
                path = [u[-1]]
            else:
                path = search(n, 300)
                if path is None:
                    break
            for k in path:
                keys.append(k)
                ts = {t for _, t in g.out[n][k][1]}
                if len(ts) > 1:
                    return keys
                w.visited.setdefault((n, k), set()).update(ts)
                n = ts.pop()
        return keys

    try:
        w.restart()
        complete = False
        since = 0
        while w.ops < budget and time.time() < deadline:
            if since > maxlen:
                w.restart()
                since = 0
            keys = []
            if len(w.cur) == 1:
                keys = plan(w.cur[0], 40)
            else:
                en = w.enabled()
                for cand in w.cur:
                    u = [k for k in unvisited(cand) if k in en]
                    if u:
                        keys = [u[-1]]
                        break
            if not keys:
                if since:
                    w.restart()
                    since = 0
                path = from_start()
                if path is None:
                    complete = True
                    break
                if not path:
                    keys = [unvisited(g.init)[-1]]
                for k in path:      # known to be executable; ends at the first nondeterministic one
                    keys.append(k)
                    if len({t for _, t in g.out[w.cur[0] if len(keys) == 1 else n][k][1]}) > 1:
                        break
                    n = g.out[w.cur[0] if len(keys) == 1 else n][k][1][0][1]
            w.run(keys)
            since += len(keys)
        return dict(ops=w.ops, sessions=w.sessions, covered=w.covered_ids(), groups=len(w.visited), complete=complete,
                    violation=None, sample=w.hist[:6])
    except Violation as v:
        return dict(ops=w.ops, sessions=w.sessions, covered=w.covered_ids(), groups=len(w.visited), complete=False,
                    violation=(v.why, v.replay, w.full), sample=w.hist[-6:])
    finally:
        w.close()


def rerun(g, exe, workdir, ops, no_assert):
    """Execute a given operation sequence in lockstep with the model; Violation if it (again) disagrees."""
    w = Walk(g, exe, workdir, no_assert)
    try:
        w.restart()
        for op in ops:
            if op is None:
                w.restart()
                continue
            k = json.dumps(op, sort_keys=True)
            if not any(k in g.out[n] for n in w.cur):
                return None
            w.step(k)
        return None
    except Violation as v:
        return v
    finally:
        w.close()


def _tour_job(a):
    g, exe, workdir, share, seed, budget, deadline, no_assert, maxlen = a
    deadline = max(deadline, time.time() + 15)      # even if it had to wait for others
    return tour(g, exe, workdir, share, random.Random(seed), budget, deadline, no_assert, maxlen)


_G = {}


def _tour_job_global(a):
    i, rest = a
    try:
        return _tour_job((_G[i],) + rest)
    except CheckError as e:
        return dict(error=str(e))


def run_tours(graphs, exe, workdir, seed, budget, seconds, no_assert=False, maxlen=400):
    """Walk all graphs, one process per group of first operations."""
    jobs = []
    deadline = time.time() + seconds
    _G.clear()
    total = sum(len(x) for g in graphs for x in g.out)
    for gi, g in enumerate(graphs):
        _G[gi] = g
        size = sum(len(x) for x in g.out)
        nb = max(1, min(NCPU, round(2 * NCPU * size / total)))
        for bi in range(nb):
            jobs.append((size / nb, (gi, (exe, workdir, (bi, nb), "%s/%d/%d" % (seed, gi, bi), budget, deadline,
                                          no_assert, maxlen))))
    jobs.sort(key=lambda x: -x[0])
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(NCPU) as pool:
        res = pool.map(_tour_job_global, [j for _, j in jobs], chunksize=1)
    for r in res:
        if "error" in r:
            raise CheckError(r["error"])
    return [(jobs[i][1][0], r) for i, r in enumerate(res)]


# ----------------------------------------------------------------------------------------------- code -> model

def record(exe, workdir, gens, seed, no_assert=False):
    """gens: list of (name, generator function(rng) yielding ops and receiving observations). One session each.
    Returns events per session; a crash ends the session with a Violation entry."""
    ad = None
    sessions = []
    before = []     # operations of earlier sessions in the same process
    try:
        for i, (name, gen) in enumerate(gens):
            rng = random.Random("%s/%s/%d" % (seed, name, i))
            ev = []
            sessions.append((name, ev))
            it = gen(rng)
            try:
                op = next(it)
                while True:
                    if ad is None:
                        ad = Adapter(exe, workdir)
                        before = []
                    try:
                        got = ad.op(op)
                    except Crash as c:
                        ad.close()
                        ad = None
                        raise Violation("the code crashed: %s" % c,
                                        {"ops": [o for o, _ in ev] + [op], "before": before, "got": str(c)})
                    if no_assert and got.get("_a"):
                        raise Violation("internal assertion fired on legal use: %s" % got.get("_am"),
                                        {"ops": [o for o, _ in ev] + [op], "got": got})
                    ev.append((op, got))
                    op = it.send(got)
            except StopIteration:
                before += [o for o, _ in ev]
    finally:
        if ad:
            ad.close()
    return sessions


def _record_job(a):
    exe, workdir, gens, seed, no_assert = a
    try:
        return ("ok", record(exe, workdir, gens, seed, no_assert))
    except Violation as v:
        return ("violation", v.why, v.replay)
    except CheckError as e:
        return ("error", str(e))


def replay_ops(exe, workdir, ops):
    ad = Adapter(exe, workdir)
    ev = []
    try:
        for op in ops:
            try:
                ev.append((op, ad.op(op)))
            except Crash as c:
                return ev, str(c)
        return ev, None
    finally:
        ad.close()
