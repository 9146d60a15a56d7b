"""Queries agree with what was declared and what is written."""
from ..engine import Scenario
from .. import nets, ref
from ..ref import PI

IDS = [7, 0, "12", "a b", -3]
QUERIES = ("id", "type", "contact_point")


def ask(ch, links, want, where):
    """want: {"predecessor"/"successor": (id, type, contact point) or nothing}"""
    for side in ("predecessor", "successor"):
        got = tuple(getattr(links, "get_%s_%s" % (side, q))() for q in QUERIES)
        w = want.get(side, (None, None, None))
        ch.req((got[0] is None) == (w[0] is None) and (w[0] is None or str(got[0]) == str(w[0])) and got[1:] == w[1:], "%s: the %s is reported as %s instead of %s", where, side, got, w)
        ch.state((side, str(got)))


def written(ch, P, links, want, where):
    """What the queries say is what the element says."""
    got = {}
    for c in links.get_element():
        if c.tag != "neighbor":
            ch.req(c.tag not in got, "%s: two %ss are written", where, c.tag)
            got[c.tag] = (c.get("elementId") or c.get("id"), c.get("elementType"), c.get("contactPoint"))
    exp = {k: (str(i), None if t is None else t.name, None if c is None else c.name) for k, (i, t, c) in want.items()}
    ch.req(got == exp, "%s: %s is written, reported is %s", where, got, exp)


def roads(ch, P):
    """All sequences of declarations, valid and rejected ones, on two roads, asked after every step."""
    junction = ch.free("road type", [-1, 1])
    rs, want = [P.create_straight_road(k, 10, junction) for k in (1, 2)], [{}, {}]
    T, C = P.ElementType, P.ContactPoint
    for k in range(3 + ch.bound):
        r, what = ch.free("step %d" % (k + 1), [(r, w) for r in (0, 1) for w in ("predecessor", "successor", "neighbour")] + [(0, "serialise"), (1, "place")])
        if what in ("serialise", "place"):
            rs[r].get_element() if what == "serialise" else rs[r].planview.adjusted or rs[r].planview.adjust_geometries()
            continue
        i = ch.dev("id", IDS)
        if what == "neighbour":
            try:
                rs[r].add_neighbor(T.road, i, P.Direction.opposite)
            except ValueError:
                ch.outcome("third neighbour")
        else:
            t, c = ch.dev("kind", [(T.road, C.start), (T.road, C.end), (T.junction, None), (T.road, None)])
            add = getattr(rs[r], "add_" + what)
            try:
                add(t, i) if c is None else add(t, i, c)
                ch.req(what not in want[r], "a second %s is accepted", what)
                want[r][what] = (i, t, c)
            except ValueError:
                ch.req(what in want[r], "the first %s is rejected", what)
        ch.op()
        for x, w, n in zip(rs, want, (1, 2)):
            ask(ch, x.links, w, "road %d after %d declarations" % (n, k + 1))
    for x, w, n in zip(rs, want, (1, 2)):
        written(ch, P, x.links, w, "road %d" % n)


def lanes(ch, P):
    """The links of lanes: by hand, and as adjusting a network makes them."""
    ls, want = [P.Lane(a=3), P.Lane(a=2)], [{}, {}]
    for k in range(3 + ch.bound):
        n, side, i = ch.free("step %d" % (k + 1), [(n, s, i) for n in (0, 1) for s in ("predecessor", "successor") for i in (-1, 2, 0)])
        i = want[n].get(side, (i,))[0]  # a lane has one predecessor and one successor, which can be declared again
        ls[n].add_link(side, i)
        want[n][side] = (i, None, None)
        ch.op()
        for l, w in zip(ls, want):
            ask(ch, l.links, w, "a lane after %d links" % (k + 1))
    for l, w in zip(ls, want):
        written(ch, P, l.links, w, "a lane")


SHAPES = {"chain": lambda ch: nets.chain(ch, 3), "junction": lambda ch: nets.through_junction(ch), "hub": lambda ch: nets.hub(ch, 2), "ring": lambda ch: nets.ring(ch, 3), "tree": lambda ch: nets.tree(ch, 2),
          "extreme": lambda ch: nets.extreme(ch, 2)}


def network(ch, P):
    """Start, end, length and links of every road of an adjusted network, asked before and after looking at the document and adjusting again."""
    net = SHAPES[ch.free("network", list(SHAPES))](ch)
    net.number(ch)
    names = [n for n, r in net.roads.items() if r.junction is None]
    f = ch.dev("fixed road", [None] + names)
    if f and net.roads[f].fixed is None:
        net.roads[f].fixed = ch.free("at", nets.POSES[2:])
    nets.ordering(ch, net, False)
    odr, rs = net.build(P)
    odr.adjust_roads_and_lanes()
    first = {n: answers(r) for n, r in rs.items()}
    if ch.dev("again", [False, True]):
        odr.adjust_roads_and_lanes()
    els = net.elements(odr.get_element())
    ch.op(len(rs) + 2)
    for n, r in rs.items():
        start, end = ref.ends(els[n])
        gs = ref.read_geoms(els[n].find("planView"))
        total = sum(g[2] for g in gs)
        for when, (s, e, e2, length) in (("before", first[n]), ("after", answers(r))):
            size = total + 1
            ch.req(ref.same_pose(s, start, size, 1e-9, 1e-9), "road %s starts at %s, but %s looking it reports %s", n, ref.show(start), when, ref.show(s))
            for x in (e, e2):
                ch.req(ref.same_pose(x, end, size, 1e-8, 1e-8), "road %s ends at %s, but %s looking it reports %s", n, ref.show(end), when, ref.show(x))
            ch.req(abs(length - total) <= 1e-9 * size, "road %s is %s long, but %s looking it reports %s", n, total, when, length)
        want = {}
        for side, end in (("predecessor", "start"), ("successor", "end")):
            l = net.roads[n].at(end)
            if l:
                want[side] = (net.ids[l[1]], P.ElementType.road, getattr(P.ContactPoint, l[2])) if l[0] == "road" else (net.ids["junction", l[1]], P.ElementType.junction, None)
        ask(ch, r.links, want, "road %s" % n)
        lane_links(ch, rs[n], els[n], n)
    ch.state(ref.dump(els[names[0]]))


def answers(r):
    return tuple(tuple(float(v) for v in p) for p in (r.planview.get_start_point(), r.planview.get_end_point(), r.get_end_point())) + (float(r.planview.get_total_length()),)


def lane_links(ch, road, e, n):
    for sec, x in zip(road.lanes.lanesections, e.iter("laneSection")):
        for lane in sec.leftlanes + [sec.centerlane] + sec.rightlanes:
            w = [l for l in x.iter("lane") if l.get("id") == str(lane.lane_id)][0].find("link")
            for side in ("predecessor", "successor"):
                ids = [l.get("id") for l in (w if w is not None else []) if l.tag == side]
                got = getattr(lane.links, "get_%s_id" % side)()
                ch.req((got is None and not ids) or str(got) in ids, "lane %s of road %s has the %ss %s, reported is %s", lane.lane_id, n, side, ids, got)


def found(ch, P):
    """Looking for roads in lists."""
    n = ch.free("roads", [0, 1, 2, 3, 12])
    base = ch.free("ids", ["from 0", "from 1", "from 100", "negative", "text", "mixed text", "numpy"])
    import numpy as np
    conv = {"from 0": int, "from 1": lambda k: k + 1, "from 100": lambda k: k + 100, "negative": lambda k: -k, "text": lambda k: "r%d" % k, "mixed text": lambda k: ["", "0", "10", "1", "01", "100"][k % 6] + "x" * (k // 6), "numpy": np.int64}[base]
    ids = [conv(k) for k in range(n)]
    order = ch.perm("order", list(range(n))) if n <= 3 else list(range(n))[::ch.free("order", [1, -1])]
    rs = [P.create_straight_road(ids[k], 10) for k in order]
    given = list(rs)
    for k in range(n):
        for _ in range(2):
            r = P.get_road_by_id(given, ids[k])
            ch.op()
            ch.req(r is rs[order.index(k)], "looking for %r in %s gives %s", ids[k], [x.id for x in rs], getattr(r, "id", r))
    for k in [conv(n), conv(n + 1), "nobody", 999]:
        r = P.get_road_by_id(given, k)
        ch.req(r is None, "looking for %r in %s gives %s", k, [x.id for x in rs], getattr(r, "id", r))
    ch.req(len(given) == n and all(a is b for a, b in zip(given, rs)), "looking for roads changes the list")
    ch.state((n, base, tuple(order)))


def crossing(ch, P):
    """Looking for the roads of a generated crossing, together with all others."""
    k, start = ch.free("roads", [3, 4]), ch.free("first connecting id", [100, 0 + 10, 1000])
    rs = [P.create_straight_road(i + ch.bound, 30) for i in range(k)]
    conns = P.create_junction_roads(rs, [2 * PI * i / k for i in range(k)], 10, startnum=start)
    for r in rs + conns:
        for where in (rs + conns, conns + rs, (rs + conns)[::-1]):
            got = P.get_road_by_id(where, r.id)
            ch.req(got is r, "looking for road %s of a crossing gives %s", r.id, getattr(got, "id", got))
            ch.op()
    for c in conns:
        ends = [(c.links.get_predecessor_id(), c.links.get_predecessor_type(), c.links.get_predecessor_contact_point()), (c.links.get_successor_id(), c.links.get_successor_type(), c.links.get_successor_contact_point())]
        for (i, t, cp) in ends:
            ch.req(t == P.ElementType.road, "a connecting road is linked to a %s", t)
            r = P.get_road_by_id(rs, i)
            ch.req(r is not None and cp == (P.ContactPoint.end if r is rs[0] else P.ContactPoint.start), "connecting road %s is linked to %s at its %s", c.id, i, cp)
        ch.state(str(ends))


CURVES = [(0.0, 0.05, 30.0), (0.05, 0.0, 30.0), (0.02, -0.03, 40.0), (-0.1, -0.01, 25.0), (0.01, 0.02, 0.5), (1e-9, 0.1, 10.0), (0.0, 0.0, 20.0), (0.04, 0.04, 50.0), (-0.04, -0.04, 50), (0, 0.001, 500), (0, -1e-6, 100), (0.5, 0.1, 20)]


def along(ch, P):
    """A clothoid, asked for poses along it in any order."""
    k0, k1, L = ch.free("curve", CURVES)
    pose = ch.free("start", [(0.0, 0.0, 0.0), (100.0, -50.0, 1.0), (-3, 4, PI), (1e4 / 3, 2, -2.5)])
    c = P.EulerSpiral.createFromLengthAndCurvature(L, k0, k1)
    for f in [ch.free("part %d" % (i + 1), [0, 0.1, 0.5, 0.75, 1]) for i in range(2 + ch.bound)]:
        s = f * L
        got = tuple(float(v) for v in c.calc(s, pose[0], pose[1], k0, pose[2]))
        ch.op()
        want = ref.step(pose, ref.curve_delta("spiral", {"curvStart": float(k0), "curvEnd": float(k0 + (k1 - k0) * f)}, s))
        ch.state((k0, k1, f, pose))
        ch.req(ref.same_pose(got, want, L, 1e-7, 1e-7), "the clothoid from %s to %s of length %s starting at %s is at %s after %s instead of %s", k0, k1, L, ref.show(pose), ref.show(got), s, ref.show(want))


SCENARIOS = [Scenario("roads", roads, 1, 2), Scenario("lanes", lanes, 0, 1), Scenario("network", network, 1, 2), Scenario("found", found), Scenario("crossing", crossing, 0, 1), Scenario("along", along, 0, 1)]
ASSUMPTIONS = ["ids of roads in a list differ and are asked for in the type they were given", "a lane has at most one predecessor and one successor when asked (with several, one of them is reported)"]
