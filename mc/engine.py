"""Stateless, exhaustive, deviation-bounded exploration of the real pyodrx code.  See DESIGN.md."""
import collections
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROJECT_PY = "/opt/venv/bin/python"
BATCH = 200
CPU_S = 30


class Violation(Exception):
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class Diverged(BaseException):
    """A replayed prefix met a different choice point: the scenario is not deterministic (a harness error)."""


class TooLong(BaseException):
    pass


class Skip(BaseException):
    """The choices made do not form a meaningful case."""


class Ch:
    """One execution: replays `prefix`, then takes option 0 everywhere."""

    def __init__(self, prefix=(), bound=0):
        self.prefix, self.bound = prefix, bound
        self.points, self.trace = [], []
        self.ops, self.states, self.outcomes = 0, set(), set()

    def _pick(self, label, options, cost):
        if not isinstance(options, (list, tuple)):
            options = list(options)
        i, n = len(self.points), len(options)
        if n == 0:
            raise Skip()
        k = self.prefix[i] if i < len(self.prefix) else 0
        if k >= n:
            raise Diverged("%s: option %d of %d" % (label, k, n))
        self.points.append((n, cost))
        self.trace.append((label, k, options[k]))
        return options[k]

    def free(self, label, options):
        return self._pick(label, options, 0)

    def dev(self, label, options):
        return self._pick(label, options, 1)

    def perm(self, label, items):
        """A complete choice among all orders of items."""
        items, out = list(items), []
        while len(items) > 1:
            j = self.free(label, list(range(len(items))))
            out.append(items.pop(j))
        return out + items

    def devperm(self, label, items):
        items, out = list(items), []
        while len(items) > 1:
            j = self.dev(label, list(range(len(items))))
            out.append(items.pop(j))
        return out + items

    def op(self, n=1):
        self.ops += n

    def state(self, x):
        if not isinstance(x, (bytes, bytearray)):
            x = repr(x).encode("utf-8", "replace")
        self.states.add(hashlib.blake2b(x, digest_size=8).digest())

    def outcome(self, x):
        self.outcomes.add(x)

    def req(self, cond, msg, *args, **kw):
        if not cond:
            raise Violation(msg % args if args else msg, kw.get("key"))


class Scenario:
    """fn(ch, P) with the deviation bound per tier; fresh: load the package anew for every execution."""

    def __init__(self, name, fn, quick=1, thorough=2, fresh=False):
        self.name, self.fn, self.fresh = name, fn, fresh
        self.bounds = {"quick": quick, "thorough": thorough}


class _Null:
    encoding = "utf-8"

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def _alarm(*a):
    raise TooLong()


def _prop(pid):
    return importlib.import_module("mc.props." + pid.lower())


def run_one(sc, P, vec, bound):
    """-> (Ch, violation message or None, key)"""
    ch = Ch(vec, bound)
    signal.setitimer(signal.ITIMER_PROF, CPU_S)
    try:
        try:
            sc.fn(ch, P)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Violation as e:
        return ch, str(e), e.key
    except Skip:
        ch.outcomes.add("skipped")
    except Diverged:
        raise
    except TooLong:
        return ch, "does not terminate (%d s of CPU time used)" % CPU_S, None
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        at = " < ".join("%s:%s" % (os.path.basename(f.filename), f.name) for f in tb[::-1][:4])
        return ch, "unexpected %s: %s (%s)" % (type(e).__name__, str(e)[:200], at), None
    return ch, None, None


def _reproduces(sc, load, history, vec, bound):
    P = load()
    for h in history:
        if sc.fresh:
            P = load()
        run_one(sc, P, h, bound)
    if sc.fresh:
        P = load()
    return run_one(sc, P, vec, bound)


def _setup():
    warnings.simplefilter("ignore")
    signal.signal(signal.SIGPROF, _alarm)
    sys.setrecursionlimit(3000)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass


def explore_chunk(pid, si, prefixes, bound, budget, known):
    """DFS below the prefixes, at most `budget` executions; deviations beyond the prefix's own are handed back."""
    from .load import load
    sc = _prop(pid).SCENARIOS[si]
    stack, later = list(prefixes), []
    st = dict(runs=0, ops=0, points=0, skipped=0, states=set(), outcomes=collections.Counter(), samples=[], viol=[], known=[], odd=[])
    P, done = load(), []
    while stack and st["runs"] < budget and len(st["viol"]) < 3:
        cost, vec = stack.pop()
        if sc.fresh or len(done) >= BATCH:
            P, done = load(), []
        ch, msg, key = run_one(sc, P, vec, bound)
        st["runs"] += 1
        st["ops"] += ch.ops
        st["points"] += len(ch.points)
        st["states"] |= ch.states
        for o in ch.outcomes:
            st["outcomes"][o] += 1
        if msg is None and len(st["samples"]) < 2 and "skipped" not in ch.outcomes:
            st["samples"].append("; ".join("%s=%s" % (l, _short(v)) for l, k, v in ch.trace))
        if msg is not None:
            ch2, msg2, key2 = _reproduces(sc, load, [], vec, bound)
            rec = dict(property=pid, scenario=sc.name, bound=bound, deviations=cost, history=[], vector=list(vec),
                       message=msg2, key=key2, choices=[[l, k, _short(v)] for l, k, v in ch.trace])
            if msg2 is None:
                ch2, msg2, key2 = _reproduces(sc, load, done, vec, bound)
                rec.update(history=[list(d) for d in done], message=msg2, key=key2)
            P, _ = load(), done.clear()
            if msg2 is None:
                st["odd"].append(dict(rec, message=msg))
            elif key2 is not None and key2 in known:
                st["known"].append(rec)
            else:
                st["viol"].append(rec)
        done.append(vec)
        base = [p for p in vec]
        for i in range(len(ch.points) - 1, len(vec) - 1, -1):
            n, c = ch.points[i]
            if cost + c > bound:
                continue
            head = base + [0] * (i - len(vec))
            for alt in range(n - 1, 0, -1):
                (later if c else stack).append((cost + c, head + [alt]))
    return st, stack, later


def _short(v):
    r = getattr(v, "__name__", None) or repr(v)
    return r if len(r) <= 80 else r[:77] + "..."


def _worker(a):
    try:
        return a, explore_chunk(*a), None
    except BaseException:
        return a, None, traceback.format_exc()


def _init():
    _setup()
    sys.stdout = _Null()
    sys.stderr = _Null()


def explore(pid, tier, seed, cap_s, bound_delta=0, procs=None):
    """Explores all scenarios of a property, bucket by bucket of deviations."""
    import multiprocessing as mp
    import random
    rnd = random.Random(seed)
    mod = _prop(pid)
    known = known_keys(pid)
    procs = procs or int(os.environ.get("MC_PROCS", 0)) or min(8, os.cpu_count() or 2)
    t0, total = time.time(), {}
    viol, knownhits, odd, errors = [], [], [], []
    ctx = mp.get_context("fork")
    capped = False
    with ctx.Pool(procs, initializer=_init) as pool:
        for si, sc in enumerate(mod.SCENARIOS):
            bound = max(0, sc.bounds[tier] - bound_delta)
            tot = dict(bound=bound, completed_bound=-1, runs=0, ops=0, points=0, states=set(), outcomes=collections.Counter(), samples=[])
            total[sc.name] = tot
            bucket, level = [(0, [])], 0
            while bucket and level <= bound:
                todo, nxt, out = collections.deque(bucket), [], 0
                q = []

                def submit():
                    nonlocal out
                    while todo and out < procs * 2:
                        k = max(1, min(200, len(todo) // (procs * 2)))
                        chunk = [todo.popleft() for _ in range(min(k, len(todo)))]
                        q.append(pool.apply_async(_worker, ((pid, si, chunk, bound, 30 if tot["runs"] < 500 else 400, known),)))
                        out += 1
                if level:
                    bucket_list = list(todo)
                    rnd.shuffle(bucket_list)
                    todo = collections.deque(bucket_list)
                submit()
                while q:
                    i = next((i for i, r in enumerate(q) if r.ready()), None)
                    if i is None:
                        q[0].wait(0.02)
                        continue
                    r = q.pop(i)
                    out -= 1
                    a, res, err = r.get()
                    if err:
                        errors.append(err)
                    else:
                        st, rest, later = res
                        for k in ("runs", "ops", "points"):
                            tot[k] += st[k]
                        tot["states"] |= st["states"]
                        tot["outcomes"].update(st["outcomes"])
                        if len(tot["samples"]) < 3:
                            tot["samples"] += st["samples"]
                        viol += st["viol"]
                        knownhits += st["known"]
                        odd += st["odd"]
                        todo.extend(rest)
                        nxt += later
                    if errors or viol:
                        todo.clear()
                    if time.time() - t0 > cap_s:
                        capped = capped or bool(todo)
                        todo.clear()
                    submit()
                if errors or viol or capped:
                    break
                tot["completed_bound"] = level
                bucket, level = nxt, level + 1
            else:
                tot["completed_bound"] = bound
            if errors or viol or capped:
                break
    return dict(total=total, viol=viol, known=knownhits, odd=odd, errors=errors, capped=capped, wall=time.time() - t0)


def findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def known_keys(pid):
    return {f["key"] for f in findings()["known"] if f["property"] == pid}


def write_replay(rec):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(json.dumps([rec["scenario"], rec["vector"], rec["history"]]).encode(), digest_size=4).hexdigest()
    p = os.path.join(d, "%s-%s-%s.json" % (rec["property"], rec["scenario"], h))
    with open(p, "w") as f:
        json.dump(rec, f, indent=1)
    return p


def replay(path):
    """-> violation message or None, in this process and interpreter"""
    from .load import load
    rec = json.load(open(path))
    _setup()
    sc = next(s for s in _prop(rec["property"]).SCENARIOS if s.name == rec["scenario"])
    out, sys.stdout = sys.stdout, _Null()
    try:
        ch, msg, key = _reproduces(sc, load, rec["history"], rec["vector"], rec["bound"])
    finally:
        sys.stdout = out
    return ch, msg


def confirm(path):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1")
    r = subprocess.run([PROJECT_PY, "-m", "mc.main", "confirm", path], cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    return r.returncode == 1


def evidence(pid, tier, seed, res, violations, extra):
    mod = _prop(pid)
    tot = res["total"]
    runs = sum(t["runs"] for t in tot.values())
    states = set()
    for n, t in tot.items():
        states |= {n.encode() + s for s in t["states"]}
    cov = dict(
        states=len(states), transitions=sum(t["ops"] for t in tot.values()), traces_validated_against_impl=runs,
        samples=[("%s: %s" % (n, s))[:600] for n, t in tot.items() for s in t["samples"][:1]][:8],
        evaluations=runs, choice_points=sum(t["points"] for t in tot.values()),
        rule="every choice vector of each scenario within its deviation bound, executed on the real code from /repo; states are distinct observed documents/results, transitions are library operations executed",
        scenarios={n: dict(bound=t["bound"], completed_bound=t["completed_bound"], executions=t["runs"], states=len(t["states"]),
                           outcomes=dict(t["outcomes"].most_common(12))) for n, t in tot.items()},
        exhaustive=not res["capped"] and not violations and not res["errors"],
        capped=res["capped"], unconfirmed=len(res["odd"]))
    cov.update(extra)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []) + ["values outside the enumerated alphabets and sizes are not covered"],
              wall_s=round(res["wall"], 2), violations=violations)
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
