"""What a geometry reports does not depend on its history."""
from ..engine import Scenario, Skip
from .. import ref, geo
from ..load import load
from ..ref import PI

P1, P2 = (0.0, 0.0, 0.0), (12.5, -7.25, 2.2)
OPS = ["fwd1", "fwd2", "back1", "back2", "write", "plan", "planend", "twice"]


def apply(P, op, g, spec):
    if op == "fwd1":
        return tuple(map(float, g.get_end_data(*P1)))
    if op == "fwd2":
        return tuple(map(float, g.get_end_data(*P2)))
    if op == "back1":
        return tuple(map(float, g.get_start_data(*P1)))
    if op == "back2":
        return tuple(map(float, g.get_start_data(*P2)))
    if op == "write":
        return ref.dump(g.get_element())
    pv = P.PlanView()
    pv.add_geometry(g)
    if op == "twice":
        pv.add_geometry(P.Line(10))
        pv.add_geometry(g)
    pv.set_start_point(*P2)
    if op == "planend":
        pv.adjust_geometries(True)
    else:
        pv.adjust_geometries()
    return plan(pv)


def plan(pv):
    out = []
    for s, pose, L, kind, at in ref.read_geoms(pv.get_element()):
        out += [kind, tuple(sorted(at.items())), s, L] + list(pose)
    return tuple(out) + tuple(map(float, pv.get_end_point())) + tuple(map(float, pv.get_start_point())) + (float(pv.get_total_length()),)


_exp = {}


def expected(op, spec):
    """As evaluated by the only geometry ever built from a freshly loaded package."""
    if (op, spec) not in _exp:
        P = load()
        _exp[op, spec] = apply(P, op, ref.build(P, spec), spec)
    return _exp[op, spec]


def equal(a, b):
    if isinstance(a, str) or len(a) != len(b):
        return a == b
    return all(x == y if not isinstance(x, float) else abs(x - y) <= 1e-9 * (1 + abs(x)) for x, y in zip(a, b))


def check(ch, P, op, g, spec, done):
    r = apply(P, op, g, spec)
    ch.op()
    ch.state((spec, op, r))
    e = expected(op, spec)
    done.append(op)
    ch.req(equal(e, r), "%r after %s: %s gives %s, but %s on a new object", spec, done[:-1], op, r, e)


def one(ch, P):
    spec = ch.free("geometry", geo.CORE)
    g, done = ref.build(P, spec), []
    for i in range(4):
        check(ch, P, ch.free("op", OPS), g, spec, done)


def many(ch, P):
    """Long runs of one operation, then of another."""
    spec = ch.free("geometry", geo.SPECS)
    g, done = ref.build(P, spec), []
    n = ch.free("times", [5, 12, 40])
    a, b = ch.free("op", OPS), ch.free("then", OPS)
    for i in range(n):
        check(ch, P, a, g, spec, done)
    check(ch, P, b, g, spec, done)
    check(ch, P, a, g, spec, done)


NEAR = [(0.0, 0.0, 0.0), (0.0, 0.0, 4e-4), (0.0, 0.0, 1e-6), (0.0, 0.0, 2 * PI), (1e-4, -1e-7, 0.0), (1e6, 0.0, 0.0), (1e6 + 0.5, 1e-3, 1e-3), (0.0, 0.0, PI), (0.0, 0.0, -PI + 1e-5)]


def near(ch, P):
    """Evaluations at places that lie close to each other, or far away."""
    spec = ch.free("geometry", geo.SPECS)
    g, done = ref.build(P, spec), []
    for i in range(3):
        way, k = ch.free("way", ["fwd", "back"]), ch.free("place", list(range(len(NEAR))))
        if i == 0 and k not in (0, 4, 6):
            raise Skip()
        f = lambda g: tuple(map(float, (g.get_end_data if way == "fwd" else g.get_start_data)(*NEAR[k])))
        if (way, k, spec) not in _exp:
            _exp[way, k, spec] = f(ref.build(load(), spec))
        r, e = f(g), _exp[way, k, spec]
        ch.op()
        ch.state((spec, way, r))
        ch.req(equal(e, r), "%r after %s: %s at %s gives %s, but %s on a new object", spec, done, way, NEAR[k], r, e)
        done.append("%s at %s" % (way, NEAR[k]))


def any_kind(ch, P):
    spec = ch.free("geometry", geo.SPECS)
    g, done = ref.build(P, spec), []
    for i in range(3):
        check(ch, P, ch.free("op", OPS), g, spec, done)


PAIRS = [(geo.CORE[i], geo.CORE[j]) for i in range(len(geo.CORE)) for j in range(len(geo.CORE)) if i <= j] + [
    (("arcL", 0.05, 20), ("arcL", 0.05, 30)), (("spL", 0, 0.05, 20), ("spL", 0, 0.05, 30)), (("spA", 0, 0.05, 0.7), ("spL", 0, 0.05, 20)),
    (("arcA", 0.05, 1.0), ("arcA", 0.05, 1.5)), (("line", 10), ("line", 20)), (("polyN", (0, 30, 0, 0, 0, 0, 0, 0)), ("polyA", (0, 30, 0, 0, 0, 0, 0, 0), 0.5))]


def two(ch, P):
    specs = ch.free("geometries", PAIRS)
    gs, done = [ref.build(P, s) for s in specs], []
    for i in range(3):
        k = ch.free("which", [0, 1])
        op = ch.free("op", OPS[:6])
        done.append("of geometry %d:" % k)
        check(ch, P, op, gs[k], specs[k], done)


def shared_views(ch, P):
    """Two long-lived plan views sharing geometries, adjusted and written in every order, never adjusted twice."""
    specs = ch.free("geometries", PAIRS)

    def make(P):
        g, h = ref.build(P, specs[0]), ref.build(P, specs[1])
        a, b = P.PlanView(), P.PlanView()
        for x in (g, h):
            a.add_geometry(x)
        for x in (h, g, g):
            b.add_geometry(x)
        a.set_start_point(*P1)
        b.set_start_point(*P2)
        return {"a": a, "b": b}, {"g": g, "h": h}
    dirs = {"a": ch.free("a from", ["start", "end"]), "b": ch.free("b from", ["start", "end"])}
    pvs, gs = make(P)
    order = ch.perm("order", ["a", "b", "g", "h"])
    for o in order:
        if o in pvs:
            pvs[o].adjust_geometries(dirs[o] == "end")
        else:
            gs[o].get_start_data(5, 6, 0.7)
            gs[o].get_end_data(5, 6, 0.7)
        ch.op()
    for o in ("a", "b"):
        key = ("views", specs, o, dirs[o])
        if key not in _exp:
            Q = load()
            q, _ = make(Q)
            q[o].adjust_geometries(dirs[o] == "end")
            _exp[key] = plan(q[o])
        r = plan(pvs[o])
        ch.state((specs, o, r))
        ch.req(equal(_exp[key], r), "plan view %s of %r after %s: %s, but %s alone", o, specs, order, r, _exp[key])


def patterns(ch, P):
    """Plan views in which geometries appear several times, in every order: as with a geometry of its own at every place."""
    specs = ch.free("geometries", PAIRS[:12] + [((("line", 10)), ("arcL", 0.05, 20), ("spL", 0, 0.05, 20))])
    word = [ch.free("place %d" % i, list(range(len(specs)))) for i in range(ch.free("places", [2, 3, 4, 5] if ch.bound == 0 else [2, 3, 4, 5, 6]))]
    from_end = ch.free("from", ["start", "end"]) == "end"
    gs = [ref.build(P, s) for s in specs]
    pv, own = P.PlanView(), P.PlanView()
    for k in word:
        pv.add_geometry(gs[k])
        own.add_geometry(ref.build(P, specs[k]))
    for v in (pv, own):
        v.set_start_point(*P2)
        v.adjust_geometries(from_end)
    ch.op()
    a, b = plan(own), plan(pv)
    ch.state((specs, a))
    ch.req(equal(a, b), "the plan view with %r in the order %s is %s, but %s with a geometry of its own at every place", specs, word, b, a)


SCENARIOS = [Scenario("patterns", patterns, 0, 1), Scenario("one", one), Scenario("kinds", any_kind), Scenario("two", two), Scenario("views", shared_views), Scenario("many", many), Scenario("near", near)]
