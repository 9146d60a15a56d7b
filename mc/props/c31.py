"""Finished documents are consistent in themselves."""
from ..engine import Scenario, Skip
from .. import nets, ref, lint, lanelinks
from ..nets import R, Net, ENDS
from ..ref import PI
from . import c12


def furnish(ch, P, net_roads, lengths):
    if ch.dev("furniture", [False, True]):
        for r, n in zip(net_roads, lengths):
            r.add_signal(P.Signal(n / 2, 3, "se", "B1"))
            r.add_object([P.Object(n / 4, 1), P.Object(n, -1, id=7)])
            r.add_object_roadside(P.Object(0, 0, id=3), 5, sOffset=n / 8)


def finish(ch, P, odr, roads, junctions):
    """junctions: [(id, connecting roads, incoming roads)]"""
    make = lambda: [odr.add_junction(P.create_junction(c, j, i)) for j, c, i in junctions]
    when = ch.dev("junctions made", ["after adjusting", "before adjusting"]) if junctions else None
    if when == "before adjusting":
        make()
    odr.adjust_roads_and_lanes()
    if when == "after adjusting":
        make()
    furnish(ch, P, roads, [r.planview.get_total_length() for r in roads])
    again = ch.dev("then", ["nothing", "adjusting again", "reading twice"])
    if again == "adjusting again":
        odr.adjust_roads_and_lanes()
    elif again == "reading twice":
        odr.get_element()
    ch.op(len(roads) + len(junctions) + 1)
    lint.check(ch, odr.get_element())


def fits(net):
    """every lane of a connecting road meets a lane"""
    out, bad = lanelinks.connecting_links(net)
    if bad:
        return False
    for (c, sec, lane), ls in out.items():
        for kind, other in ls:
            _, name, contact, off = net.roads[c].pred if kind == "predecessor" else net.roads[c].succ
            nl, nr = lanelinks.count(net.roads[name], contact)
            if other == 0 or other > nl or -other > nr or (other < 0) != ((lane < 0) != (contact == ("start" if kind == "predecessor" else "end"))):
                return False
    return not lanelinks.road_links(net)[1]


def linked_lanes(P, r):
    """lane sections joined by a linker: lanes of equal number are linked"""
    ls, prev, lk = P.Lanes(), None, P.LaneLinker()
    for k, (nl, nr) in enumerate(r.secs):
        sec = P.LaneSection(k * r.length / len(r.secs), P.Lane())
        for _ in range(nl):
            sec.add_left_lane(P.Lane(a=3))
        for _ in range(nr):
            sec.add_right_lane(P.Lane(a=3))
        if prev:
            for a, b in list(zip(prev.leftlanes, sec.leftlanes)) + list(zip(prev.rightlanes, sec.rightlanes)):
                lk.add_link(a, b)
        ls.add_lanesection(sec, lk)
        prev = sec
    return ls


def run_net(ch, P, net):
    if not fits(net):
        raise Skip()
    net.number(ch, styles=("int", "text", "reference text", "from zero"))
    net.lanes = linked_lanes
    net.order = ch.devperm("added", list(net.roads))
    odr, roads = net.build(P)
    js = sorted({r.junction for r in net.roads.values() if r.junction})
    finish(ch, P, odr, list(roads.values()), [(net.ids["junction", j], [roads[n] for n in net.order if net.roads[n].junction == j], [roads[n] for n in net.order if net.roads[n].junction is None]) for j in js])


SECS = [((1, 1),), ((2, 2),), ((2, 1), (1, 2)), ((1, 2), (3, 3), (2, 1)), ((3, 3), (1, 1))]


def chain(ch, P):
    net = nets.chain(ch, ch.free("roads", [2, 3, 4]))
    for n, r in net.roads.items():
        r.secs = list(ch.dev("lanes of " + n, SECS))
    run_net(ch, P, net)


def crossroads(ch, P):
    """a connecting road between any two ends, with lane offsets and another road behind"""
    net = nets.through_junction(ch, tail=ch.free("tail", [False, True]), offsets=(0, 1, -1, -2))
    s = ch.free("connecting lanes", [(1, 1), (0, 1), (1, 0), (2, 2), (0, 2)])
    for n, r in net.roads.items():
        r.secs = {"one": [s], "two": [s, s], "wider": [s, (s[0] + 1, s[1])], "narrower": [(s[0], s[1] + 1), s]}[ch.free("connecting sections", ["one", "two", "wider", "narrower"])] if n == "C" else list(ch.free("lanes of A and B", [((1, 1),), ((2, 2),), ((3, 3),), ((2, 2), (3, 3))])) if n == "A" else r.secs
    for n in net.roads:
        if n in "BD":
            net.roads[n].secs = net.roads["A"].secs if n == "B" else [lanelinks.count(net.roads["B"], "end" if net.roads["B"].succ and net.roads["B"].succ[0] == "road" else "start")]
    run_net(ch, P, net)


def loop(ch, P):
    """both ends of a connecting road at one road"""
    net = Net([R(x, ch.dev("geometry of " + x, nets.GEOMS), junction="J" if x in "CD" else None) for x in "ACBD"[:ch.free("roads", [2, 3, 4])]])
    ends = ch.free("joins", [("end", "start"), ("start", "end"), ("end", "end"), ("start", "start")])
    net.connect("C", "A", ends[0], "A", ends[1])
    if "B" in net.roads:
        be = ch.free("B", ENDS)
        if "D" in net.roads:
            net.connect("D", "B", be, "A", ends[ch.free("D to", [0, 1])])
        else:
            free = [e for e in ENDS if e not in ends]
            if not free:
                raise Skip()
            net.road_link("A", free[0], "B", be)
    n = ch.free("lanes", [(1, 1), (2, 2)])
    for r in net.roads.values():
        r.secs = [n] if r.junction is None else ch.free("connecting lanes", [[(1, 1)], [n], [(1, 0), (0, 1)]])
    run_net(ch, P, net)


def split(ch, P):
    """the lanes of one road go to different roads"""
    net = nets.hub(ch, 2, offsets=(0,))
    side = ch.free("side", [1, -1])
    ae = net.roads["C0"].pred[2] if net.roads["C0"].pred[1] == "A" else net.roads["C0"].succ[2]
    n0, n1 = ch.free("lanes", [(1, 1), (2, 1), (1, 2)])
    net.roads["A"].secs = [(n0 + n1, n0 + n1)]
    for i, n in enumerate((n0, n1)):
        c, b = net.roads["C%d" % i], net.roads["B%d" % i]
        from_a = c.pred[1] == "A"
        contact = (c.pred if from_a else c.succ)[2]
        s = side if (contact == "end") == from_a else -side
        c.secs = [(n, 0) if s > 0 else (0, n)]
        b.secs = [(n, n)]
        off = s * n0 * i
        if from_a:
            c.pred = c.pred[:3] + (off,)
        else:
            c.succ = c.succ[:3] + (off,)
    run_net(ch, P, net)


def double(ch, P):
    net = nets.two_junctions(ch, offsets=(0,))
    long = ch.free("long", ["none", "A", "B", "E"])
    for n, r in net.roads.items():
        r.secs = [(2, 2), (1, 1), (2, 2)] if n == long else [(2, 2)] if r.junction is None else [(1, 1)]
    run_net(ch, P, net)


def crossing(ch, P):
    """generated crossings"""
    angles = ch.free("angles", c12.SHAPES)
    secs = ch.free("lanes", c12.SECS)
    k = len(angles)
    ids = c12.names(ch, k)
    jid, start = ch.free("junction", [1, 5]), ch.dev("start number", [100, 50])
    made = ch.free("roads made", ["by hand", "straight", "from geometries", "cloth-arc-cloth"])
    roads = []
    for i, rid in enumerate(ids):
        n = secs[-1 if i == 0 else 0][0]
        if made == "by hand":
            roads.append(c12.incoming(P, rid, nets.GEOMS[i % 3], secs if i else secs, 3))
        elif made == "straight":
            roads.append(P.create_straight_road(rid, 40 + i, n_lanes=n))
        elif made == "from geometries":
            roads.append(P.create_road([P.Line(30), P.Arc(0.02, length=20)], rid, n, n))
        else:
            roads.append(P.create_cloth_arc_cloth(0.05, PI / 4, 0.2, rid, junction=-1, n_lanes=n))
    if made == "by hand" and len({s[0] for s in (secs[-1], secs[0])}) > 1:
        raise Skip()
    if len({secs[-1][0], secs[0][0]}) > 1:
        raise Skip()
    conns = P.create_junction_roads(roads, list(angles), ch.dev("radius", [10, 25.0]), junction=jid, startnum=start)
    tails = []
    for i, r in enumerate(roads):
        if ch.dev("road %d" % i, ["ends", "continues"]) == "continues":
            n = secs[0 if i == 0 else -1][0] if made == "by hand" else secs[-1 if i == 0 else 0][0]
            t = P.create_straight_road(5000 + i, n_lanes=n)
            S, C = P.ElementType.road, P.ContactPoint
            if i == 0:
                r.add_predecessor(S, t.id, C.end)
                t.add_successor(S, r.id, C.start)
            else:
                r.add_successor(S, t.id, C.start)
                t.add_predecessor(S, r.id, C.end)
            tails.append(t)
    odr = P.OpenDrive("crossing")
    every = roads + conns + tails
    for r in every if ch.free("added", ["in order", "backwards"]) == "in order" else every[::-1]:
        odr.add_road(r)
    finish(ch, P, odr, every, [(jid, conns, roads)])


def trees(steps):
    """All networks without rings of that many roads."""
    def fn(ch, P):
        net = nets.tree(ch, steps, geoms=False)
        for n, r in net.roads.items():
            r.secs = [(1, 1)] if r.junction else list(ch.dev("lanes of " + n, [((2, 2),), ((2, 2), (1, 3), (2, 2))]))
        run_net(ch, P, net)
    return fn


def extreme(ch, P):
    net = nets.extreme(ch, ch.free("roads", [1, 2]))
    for r in net.roads.values():
        r.secs = ch.free("sections of " + r.name, [[(1, 1)], [(1, 1)] * 3])
    run_net(ch, P, net)


SCENARIOS = [Scenario("extreme", extreme, 1, 1), Scenario("trees", trees(2), 1, 2), Scenario("trees3", trees(3), 0, 1), Scenario("chain", chain, 2, 3), Scenario("crossroads", crossroads, 1, 2), Scenario("loop", loop, 1, 2), Scenario("split", split, 1, 2), Scenario("double", double, 1, 2), Scenario("crossing", crossing, 2, 3)]
ASSUMPTIONS = ["links between ordinary roads are declared on both sides and lane offsets lead to lanes that exist", "road and junction ids are distinct among roads and among junctions"]
