"""A placed plan view is one gapless chain with running s."""
from ..engine import Scenario
from .. import ref, geo
from ..ref import PI

POSES = [(0, 0, 0), (10.0, -20.0, 0.5), (-300.5, 70, -2.5), (1, 2, 7.5)]


def judge(ch, specs, pv, elem, road=None, road_elem=None, start=None, end=None, headings=None):
    gs = ref.read_geoms(elem)
    ch.state(gs)
    ch.req(len(gs) == len(specs), "%d geometries written for %d added", len(gs), len(specs))
    s, total = 0.0, sum(ref.local(x)[1] for x in specs)
    for i, (spec, g) in enumerate(zip(specs, gs)):
        kind, at, L = ref.curve_spec(spec)
        ok = g[3] == kind and sorted(g[4]) == sorted(at) and all(g[4][k] == v if k == "pRange" else abs(g[4][k] - v) < 1e-12 * (1 + abs(v)) for k, v in at.items())
        ch.req(ok, "geometry %d is %s %s instead of %r", i, g[3], g[4], spec)
        ch.req(abs(g[2] - L) <= (1e-4 if spec[0] == "polyN" else 1e-9) * (1 + L), "geometry %d has length %.9g instead of %.9g", i, g[2], L)
        ch.req(abs(g[0] - s) <= 1e-9 * (1 + s), "geometry %d starts at s=%.9g instead of %.9g", i, g[0], s)
        s += g[2]
        if i:
            p = ref.step(gs[i - 1][1], ref.curve_delta(gs[i - 1][3], gs[i - 1][4], gs[i - 1][2]))
            want = p if headings is None else (p[0], p[1], headings[i])
            ch.req(ref.same_pose(g[1], want, total, 1e-8, 1e-8), "geometry %d starts at %s, the one before ends at %s", i, ref.show(g[1]), ref.show(want))
    first, last = gs[0][1], ref.step(gs[-1][1], ref.curve_delta(*[gs[-1][k] for k in (3, 4, 2)]))
    if start is not None:
        want = start if headings is None else (start[0], start[1], headings[0])
        ch.req(ref.same_pose(first, want, total, 1e-8, 1e-8), "placed at %s starts at %s", ref.show(want), ref.show(first))
    if end is not None:
        ch.req(ref.same_pose(last, end, total, 1e-8, 1e-8), "placed to end at %s ends at %s", ref.show(end), ref.show(last))
    reports = [("plan view start", pv.get_start_point(), first if headings is None else start and (start[0], start[1], None)), ("plan view end", pv.get_end_point(), last)]
    if road is not None:
        reports.append(("road end", road.get_end_point(), last))
        L = float(road_elem.get("length"))
        ch.req(abs(L - s) <= 1e-9 * (1 + s), "road length %.9g, sum of lengths %.9g", L, s)
    for name, got, want in reports:
        got = tuple(map(float, got))
        if want[2] is None:
            want = (want[0], want[1], got[2])
        ch.req(ref.same_pose(got, want, total, 1e-8, 1e-8), "%s reported at %s instead of %s", name, ref.show(got), ref.show(want))
    ch.req(abs(float(pv.get_total_length()) - s) <= 1e-9 * (1 + s), "total length %.9g, sum %.9g", float(pv.get_total_length()), s)
    ch.op(4)


def road_on(P, rid, pv):
    ls = P.Lanes()
    ls.add_lanesection(P.LaneSection(0, P.Lane()))
    return P.Road(rid, pv, ls)


def pick(ch, nmax, alphabet):
    return [ch.free("geometry", alphabet) for _ in range(ch.free("count", range(1, nmax + 1)))]


def direct(ch, P, nmax=3, alphabet=geo.CORE):
    specs = pick(ch, nmax, alphabet)
    pose = ch.free("pose", POSES)
    from_end = ch.free("from", ["start", "end"]) == "end"
    pv = P.PlanView()
    for s in specs:
        pv.add_geometry(ref.build(P, s))
    pv.set_start_point(*pose)
    pv.adjust_geometries(from_end)
    ch.op(len(specs) + 1)
    road = road_on(P, 7, pv)
    judge(ch, specs, pv, pv.get_element(), road, road.get_element(), None if from_end else pose, ref.rev(pose) if from_end else None)


def kinds(ch, P):
    direct(ch, P, 2, geo.SPECS)


def long(ch, P):
    direct(ch, P, 5, [geo.CORE[0], geo.CORE[3], geo.CORE[7]])


def many(ch, P):
    """Plan views of up to 130 geometries."""
    n, shift, step = ch.free("geometries", [6, 10, 17, 33, 60, 130]), ch.free("shift", range(len(geo.CORE))), ch.free("step", [1, 2, 4])
    specs = [geo.CORE[(shift + i * step) % len(geo.CORE)] for i in range(n)]
    pose, from_end = ch.free("pose", POSES[1:3]), ch.free("from", ["start", "end"]) == "end"
    pv = P.PlanView()
    for s in specs:
        pv.add_geometry(ref.build(P, s))
    pv.set_start_point(*pose)
    pv.adjust_geometries(from_end)
    ch.op(n + 1)
    road = road_on(P, 7, pv)
    judge(ch, specs, pv, pv.get_element(), road, road.get_element(), None if from_end else pose, ref.rev(pose) if from_end else None)


def shared(ch, P):
    """The same geometry object several times in one plan view."""
    spec = ch.free("geometry", geo.CORE)
    other = ch.free("other", geo.CORE)
    pattern = ch.free("pattern", ["aa", "aba", "aab", "abab"])
    from_end = ch.free("from", ["start", "end"]) == "end"
    a, b = ref.build(P, spec), ref.build(P, other)
    pv = P.PlanView()
    for c in pattern:
        pv.add_geometry(a if c == "a" else b)
    pose = POSES[1]
    pv.set_start_point(*pose)
    pv.adjust_geometries(from_end)
    judge(ch, [spec if c == "a" else other for c in pattern], pv, pv.get_element(), None, None, None if from_end else pose, ref.rev(pose) if from_end else None)


def prescribed(ch, P):
    specs = pick(ch, 3, geo.CORE)
    hs = [ch.free("heading%d" % i, [0, 0.7, -2.0]) for i in range(len(specs))]
    pose = ch.free("pose", POSES[:2])
    pv = P.PlanView(*pose)
    for s, h in zip(specs, hs):
        pv.add_geometry(ref.build(P, s), h)
    pv.adjust_geometries()
    judge(ch, specs, pv, pv.get_element(), None, None, pose, None, hs)


def network(ch, P):
    """Roads placed by the network, each from its start or its end, in chains of three."""
    specs = {r: pick(ch, 2, geo.CORE[:1] + geo.CORE[3:6] + geo.CORE[7:8]) for r in (1, 2)}
    cps = [ch.free("link", ["pred end", "pred start", "succ start", "succ end"]) for _ in (1, 2)]
    pose = ch.free("pose", [None, POSES[2]])
    odr, roads = P.OpenDrive("net"), {}
    for r in (0, 1, 2):
        pv = P.PlanView(*pose) if r == 0 and pose else P.PlanView()
        for s in specs.get(r, [geo.CORE[1]]):
            pv.add_geometry(ref.build(P, s))
        roads[r] = road_on(P, r, pv)
        if r:
            w, cp = cps[r - 1].split()
            add = roads[r].add_predecessor if w == "pred" else roads[r].add_successor
            add(P.ElementType.road, r - 1, getattr(P.ContactPoint, cp))
        odr.add_road(roads[r])
    odr.adjust_startpoints()
    ch.op(4)
    els = ref.road_elems(odr.get_element())
    for r in (0, 1, 2):
        judge(ch, specs.get(r, [geo.CORE[1]]), roads[r].planview, els[str(r)].find("planView"), roads[r], els[str(r)], (pose or POSES[0]) if r == 0 else None)


def omitted(ch, P):
    """Start points given in part, again, by name, by the constructor or not at all: what is left out is 0."""
    specs = pick(ch, 2, geo.CORE[:1] + geo.CORE[3:6])
    pose, from_end = ch.free("pose", POSES), ch.free("from", ["start", "end"]) == "end"
    how = ch.free("given", ["constructor", "call", "names", "call after another", "constructor, then call"])
    n = ch.free("values", [0, 1, 2, 3])
    if n < 3 and how.startswith("constructor"):
        n = 3
    args = pose[:n]
    pv = P.PlanView(*pose) if how == "constructor" else P.PlanView(5.0, 6.0, 7.0) if how == "constructor, then call" else P.PlanView()
    late = ch.free("when", ["first", "last"])
    call = lambda: None if how == "constructor" else pv.set_start_point(**dict(zip(("x_start", "y_start", "h_start"), args))) if how == "names" else pv.set_start_point(*args)
    if how == "call after another":
        pv.set_start_point(-1.0, 2.0, -3.0)
    if late == "first":
        call()
    for s in specs:
        pv.add_geometry(ref.build(P, s))
    if late == "last":
        call()
    pv.adjust_geometries(from_end)
    ch.op(len(specs) + 2)
    want = tuple(pose[:n]) + (0,) * (3 - n)
    road = road_on(P, 7, pv)
    judge(ch, specs, pv, pv.get_element(), road, road.get_element(), None if from_end else want, ref.rev(want) if from_end else None)


def thorough_direct(ch, P):
    if ch.bound < 2:  # only in the thorough tier
        return
    direct(ch, P, 4, geo.CORE)


SCENARIOS = [Scenario("omitted", omitted), Scenario("many", many), Scenario("direct", direct), Scenario("kinds", kinds), Scenario("long", long), Scenario("shared", shared), Scenario("prescribed", prescribed),
             Scenario("network", network), Scenario("direct4", thorough_direct)]
