"""Linked lanes meet physically."""
from ..engine import Scenario
from .. import nets, ref
from ..nets import R, Net, ENDS

SECS = [((1, 1),), ((2, 2),), ((2, 1), (1, 2)), ((1, 2), (3, 3), (2, 1))]


def strip(road, end, lane):
    """(inner, outer) border points of a lane at an end of a road element, None if there is no such lane; also the number of lanes there"""
    secs = road.findall("lanes/laneSection")
    sec = secs[0] if end == "start" else secs[-1]
    s0 = float(sec.get("s"))
    at = s0 if end == "start" else float(road.get("length"))
    side = "left" if lane > 0 else "right"
    by = {abs(int(l.get("id"))): l for l in sec.findall(side + "/lane")}
    if abs(lane) not in by:
        return None
    t = 0.0
    for k in range(1, abs(lane) + 1):
        w = by[k].find("width")
        ds = at - s0 - float(w.get("sOffset", 0))
        inner, t = t, t + sum(float(w.get(c)) * ds ** n for n, c in enumerate("abcd"))
    s = 1 if lane > 0 else -1
    p = ref.ends(road)[ENDS.index(end)]
    return ref.left(p, s * inner), ref.left(p, s * t)


def meet(ch, els, u, ue, ul, v, ve, vl, what):
    a, b = strip(els[u], ue, ul), strip(els[v], ve, vl)
    ch.req(a is not None, "%s: road %s has no lane %d at its %s", what, u, ul, ue)
    ch.req(b is not None, "%s: road %s has no lane %d at its %s", what, v, vl, ve)
    for name, p, q in (("inner", a[0], b[0]), ("outer", a[1], b[1])):
        tol = 1e-6 * (1 + max(abs(x) for x in p[:2] + q[:2]))
        ch.req(abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol, "%s: the %s border of lane %d of road %s is at (%.7g, %.7g), that of lane %d of road %s at (%.7g, %.7g)", what, name, ul, u, p[0], p[1], vl, v, q[0],
               q[1])
    ch.state((u, ue, ul, v, ve, vl, ref.show(a[0]), ref.show(a[1])))


def judge(ch, doc, where):
    els, n = ref.road_elems(doc), 0
    links = {}
    for rid, r in els.items():
        for tag, e in (("predecessor", "start"), ("successor", "end")):
            l = r.find("link/" + tag)
            if l is not None and l.get("elementType") == "road":
                links[rid, e] = l.get("elementId"), l.get("contactPoint")
    for rid, r in els.items():
        secs = r.findall("lanes/laneSection")
        for i, sec in enumerate(secs):
            for lane in sec.iter("lane"):
                for l in lane.findall("link/*"):
                    e = {"predecessor": "start", "successor": "end"}[l.tag]
                    if (i > 0 and e == "start") or (i < len(secs) - 1 and e == "end") or (rid, e) not in links:
                        continue
                    other, oe = links[rid, e]
                    meet(ch, els, rid, e, int(lane.get("id")), other, oe, int(l.get("id")), "%s of lane %s of road %s %s" % (l.tag, lane.get("id"), rid, where))
                    n += 1
    for j in doc.findall("junction"):
        for c in j:
            cr, e = c.get("connectingRoad"), c.get("contactPoint")
            ch.req((cr, e) in links, "connection at the %s of road %s, which has no link there %s", e, cr, where)
            other, oe = links[cr, e]
            ch.req(other == c.get("incomingRoad"), "connection of road %s and connecting road %s at its %s, where it meets road %s %s", c.get("incomingRoad"), cr, e, other, where)
            for l in c.findall("laneLink"):
                meet(ch, els, other, oe, int(l.get("from")), cr, e, int(l.get("to")), "lane link of the junction between roads %s and %s %s" % (other, cr, where))
                n += 1
    ch.outcome("%s linked lanes" % ("no" if not n else "some" if n < 10 else "many"))
    return n


def run(ch, P, net, junction="free"):
    net.number(ch)
    odr, roads = net.build(P)
    conns = [n for n in net.order if net.roads[n].junction]
    js = sorted({net.roads[n].junction for n in conns})
    make = lambda: [odr.add_junction(P.create_junction([roads[n] for n in conns if net.roads[n].junction == j], net.ids["junction", j], [roads[n] for n in net.roads if net.roads[n].junction is None])) for j in js]
    when = ch.dev("junction", ["after", "before"]) if js else None
    if when == "before":
        make()
    try:
        odr.adjust_roads_and_lanes()
    except P.exceptions.NotSameAmountOfLanesError:
        ch.outcome("lanes do not match")
        return
    if ch.dev("adjusted", ["once", "twice"]) == "twice":
        odr.adjust_roads_and_lanes()
    if when == "after":
        make()
    ch.op(len(roads) + 1 + len(js))
    judge(ch, odr.get_element(), "[%s; lanes %s; added %s]" % (net.show(), {n: r.secs for n, r in net.roads.items()}, net.order))


def lanes(ch, net, dev=True):
    for n, r in net.roads.items():
        r.secs = list((ch.dev if dev else ch.free)("lanes of " + n, SECS))


def chain(ch, P):
    net = nets.chain(ch, ch.free("roads", [2, 3, 4] if ch.bound > 1 else [2, 3]))
    lanes(ch, net)
    nets.ordering(ch, net, len(net.roads) < 4)
    run(ch, P, net)


def between(ch, P):
    """A connecting road between two roads: all geometries, contact points, lanes."""
    names = "ACB"
    g = {x: ch.free("geometry of " + x, nets.GEOMS) if x == "C" else ch.dev("geometry of " + x, nets.GEOMS) for x in names}
    net = Net([R(x, g[x], junction="J" if x == "C" else None) for x in names])
    net.connect("C", "A", ch.free("start joins", ENDS), "B", ch.free("end joins", ENDS))
    lanes(ch, net)
    nets.ordering(ch, net)
    run(ch, P, net)


def offsets(ch, P):
    """Lane offsets on either side."""
    names = "ACB"
    g = {x: ch.dev("geometry of " + x, nets.GEOMS) for x in names}
    net = Net([R(x, g[x], junction="J" if x == "C" else None) for x in names])
    s = 1 if ch.free("side", ["left", "right"]) == "left" else -1
    o = [s * ch.free("offset at " + e, [0, 1, 2]) for e in ENDS]
    net.connect("C", "A", ch.free("start joins", ENDS), "B", ch.free("end joins", ENDS), *o)
    n = ch.free("lanes", [1, 2])
    net.roads["C"].secs = [(n, 0) if s > 0 else (0, n)] * ch.dev("sections", [1, 2])
    for x in "AB":
        net.roads[x].secs = list(ch.dev("lanes of " + x, [((4, 4),), ((4, 4), (5, 5), (4, 4))]))
    nets.ordering(ch, net)
    run(ch, P, net)


def wide(ch, P):
    """Many lanes and lane offsets."""
    net = Net([R("A", nets.GEOMS[0]), R("C", nets.GEOMS[ch.free("geometry of C", [0, 1])], junction="J"), R("B", nets.GEOMS[1])])
    s = 1 if ch.free("side", ["left", "right"]) == "left" else -1
    o = [s * ch.free("offset at " + e, [0, 1, 3, 5, 9]) for e in ENDS]
    net.connect("C", "A", ch.free("start joins", ENDS), "B", ch.free("end joins", ENDS), *o)
    n = ch.free("lanes", [1, 4, 11])
    net.roads["C"].secs = [(n, 0) if s > 0 else (0, n)]
    for x in "AB":
        net.roads[x].secs = [(20, 20)]
    run(ch, P, net)


def numbers(ch, P):
    """Every number of lanes on either side of a joint."""
    net = Net([R("A", nets.GEOMS[0]), R("B", nets.GEOMS[1], junction=ch.free("B", [None, "J"])), R("D", nets.GEOMS[2])])
    top = list(range(13 if ch.bound else 9))
    both = (ch.free("left lanes", top), ch.free("right lanes", top))
    if net.roads["B"].junction:
        net.connect("B", "A", ch.free("start joins", ENDS), "D", ch.free("end joins", ENDS))
    else:
        e = ch.free("end", ENDS)
        other = {"start": "end", "end": "start"}[e]
        net.road_link("A", e, "B", other)
        net.road_link("B", e, "D", other)
    for r in net.roads.values():
        r.secs = [both]
    if net.roads["B"].junction:
        net.roads["A"].secs = net.roads["D"].secs = [(13, 13)]
    run(ch, P, net)


def hub(ch, P):
    """Lanes of one road split among connecting roads by lane offset."""
    k = ch.free("connecting roads", [2, 3])
    s = 1 if ch.free("side", ["left", "right"]) == "left" else -1
    names = ["A"] + ["C%d" % i for i in range(k)] + ["B%d" % i for i in range(k)]
    net = Net([R(x, ch.dev("geometry of " + x, nets.GEOMS), junction="J" if x[0] == "C" else None, secs=[(4, 4)]) for x in names])
    ae = ch.free("junction at", ENDS)
    for i in range(k):
        c, b = "C%d" % i, "B%d" % i
        be = ch.free("%s joins at" % b, ENDS)
        back = ch.free("direction of " + c, ["from A", "to A"])
        side = -s if (back == "to A") else s
        a_off, b_off = side * i, side * ch.dev("offset at " + b, [0, 1])
        net.roads[c].secs = [(1, 0) if side > 0 else (0, 1)]
        if back == "from A":
            net.connect(c, "A", ae, b, be, a_off, b_off)
        else:
            net.connect(c, b, be, "A", ae, b_off, a_off)
    nets.ordering(ch, net, False)
    run(ch, P, net)


def through(ch, P):
    net = nets.through_junction(ch, offsets=(0,))
    lanes(ch, net)
    nets.ordering(ch, net, False)
    run(ch, P, net)


def two(ch, P):
    net = nets.two_junctions(ch, offsets=(0,))
    lanes(ch, net)
    nets.ordering(ch, net, False)
    run(ch, P, net)


def ring(ch, P):
    n = ch.free("roads", [2, 3, 4])
    net = nets.ring(ch, n, ch.free("connecting", {2: ["", "B"], 3: ["", "B"], 4: ["", "B", "BD"]}[n]))
    base = ch.free("lanes", [(1, 1), (2, 2), (1, 2)])
    for r in net.roads.values():
        r.secs = [base] if ch.dev("sections", [1, 2]) == 1 else [base, (3, 3), base]
    nets.ordering(ch, net, n < 4)
    run(ch, P, net)


def crossing(ch, P):
    net = nets.crossing(ch, ch.free("roads", [3, 4]))
    base = ch.free("lanes", [(1, 1), (2, 2)])
    for n, r in net.roads.items():
        r.secs = [base] if len(n) == 2 else list(ch.dev("lanes of " + n, [(base,), (base, (3, 3), base)]))
    nets.ordering(ch, net, False)
    run(ch, P, net)


def generated(ch, P):
    """create_junction_roads and create_junction."""
    from .c12 import SHAPES, PARTS, incoming, names
    angles = ch.free("angles", SHAPES)
    r, parts = ch.free("radius", [8, 20.0]), ch.free("parts", PARTS[:3])
    base = ch.free("lanes", [(1, 1), (2, 2), (3, 3)])
    ids = names(ch, len(angles))
    roads = []
    for k, i in enumerate(ids):
        secs = [base] if ch.dev("sections", [1, 2]) == 1 else [(3, 3), base] if k == 0 else [base, (3, 3)]
        roads.append(incoming(P, i, ch.dev("road geometry", nets.GEOMS), secs, ch.dev("width", [3, 2.5]) if k == 0 and False else 3))
    conns = P.create_junction_roads(roads, list(angles), r, spiral_part=parts[0], arc_part=parts[1])
    odr = P.OpenDrive("generated")
    how = ch.free("added", ["roads first", "connecting roads first", "reversed"])
    for x in {"roads first": roads + conns, "connecting roads first": conns + roads, "reversed": (roads + conns)[::-1]}[how]:
        odr.add_road(x)
    when = ch.free("junction", ["after", "before"])
    if when == "before":
        odr.add_junction(P.create_junction(conns, 1, roads))
    odr.adjust_roads_and_lanes()
    if when == "after":
        odr.add_junction(P.create_junction(conns, 1, roads))
    ch.op(len(roads) + len(conns) + 3)
    n = judge(ch, odr.get_element(), "[generated crossing at %s]" % (angles,))
    ch.req(n == len(conns) * 2 * 2 * sum(base), "%d linked lanes at a crossing of %d roads with %s lanes", n, len(roads), base)


def long(ch, P):
    run(ch, P, nets.long_chain(ch, secs=ch.free("lanes", [((2, 2), (1, 1), (2, 2)), ((1, 1),)])))


def trees(steps, full):
    """All networks without rings of that many roads."""
    def fn(ch, P):
        net = nets.tree(ch, steps)
        for n, r in net.roads.items():
            r.secs = [(1, 1)] if r.junction else list(ch.dev("lanes of " + n, [((2, 2),), ((2, 2), (1, 3), (2, 2))]))
        nets.ordering(ch, net, full)
        run(ch, P, net)
    return fn


SCENARIOS = [Scenario("trees", trees(2, True), 0, 1), Scenario("trees3", trees(3, False), 0, 1), Scenario("long", long, 0, 1), Scenario("chain", chain, 1, 2), Scenario("between", between, 1, 2), Scenario("offsets", offsets, 1, 2), Scenario("wide", wide, 0, 1), Scenario("numbers", numbers, 0, 1), Scenario("hub", hub, 1, 2), Scenario("through", through, 1, 2), Scenario("two", two, 1, 2),
             Scenario("ring", ring, 1, 2), Scenario("crossing", crossing, 1, 2), Scenario("generated", generated, 1, 2)]
ASSUMPTIONS = ["lanes are 3 m wide", "lane offsets move lanes outwards on their side of the road (no lane is shifted across the centre)"]
