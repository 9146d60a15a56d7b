"""Re-adjusting and serialising change nothing."""
import os
from ..engine import Scenario
from .. import nets, ref
from ..nets import R, Net, ENDS

def scratch():
    d = os.path.join(os.environ["MC_SCRATCH"], "p%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def op_element(P, odr):
    odr.get_element()


def op_print(P, odr):
    P.prettyprint(odr.get_element())


def write(pretty):
    def go(P, odr):
        f = os.path.join(scratch(), "c08-%d.xodr" % os.getpid())
        try:
            odr.write_xml(f, pretty)
        finally:
            if os.path.exists(f):
                os.remove(f)
    go.__name__ = "write " + ("pretty" if pretty else "compact")
    return go


def op_adjust(P, odr):
    odr.adjust_roads_and_lanes()


def op_startpoints(P, odr):
    odr.adjust_startpoints()


OPS = [op_adjust, op_element, write(True), write(False), op_print]


def plain(net, P, roads):
    return []


def with_junction(net, P, roads):
    conns = [roads[n] for n, r in net.roads.items() if r.junction]
    if conns:
        return [P.create_junction(conns, net.ids["junction", next(r.junction for r in net.roads.values() if r.junction)], list(roads.values()))]
    return []


def furnish(P, roads):
    a = next(iter(roads.values()))
    a.add_signal(P.Signal(1, -2, "de", "274", id=1))
    o = P.Object(3, 4, P.ObjectType.pole, id=1, height=2)
    o.repeat(20, 5)
    a.add_object(o)
    sec = a.lanes.lanesections[0]
    for lane in sec.leftlanes[:1] + sec.rightlanes[:1]:
        lane.add_roadmark(P.RoadMark(P.RoadMarkType.broken, 0.2, length=4))


SHAPES = {
    "chain": lambda ch: nets.chain(ch, 3), "junction": lambda ch: nets.through_junction(ch), "hub": lambda ch: nets.hub(ch, 2), "ring": lambda ch: nets.ring(ch, 3),
    "ring through a junction": lambda ch: nets.ring(ch, 4, "B"), "crossing": lambda ch: nets.crossing(ch, 3), "two": lambda ch: nets.ring(ch, 2),
    "tree": lambda ch: nets.tree(ch, 2),
}


def make(ch, shapes, orders=True):
    net = SHAPES[ch.free("network", shapes)](ch)
    names = [n for n, r in net.roads.items() if r.junction is None]
    f = ch.dev("fixed road", [None] + names)
    if f:
        net.roads[f].fixed = ch.free("at", nets.POSES[2:])
    secs = ch.dev("lane sections", [1, 2])
    for r in net.roads.values():
        r.secs = [(1, 1), (2, 2), (1, 1)] if secs > 1 else [(1, 1)]
    net.number(ch)
    if orders:
        nets.ordering(ch, net, False)
    return net


def built(P, net):
    odr, roads = net.build(P)
    furnish(P, roads)
    for j in with_junction(net, P, roads):
        odr.add_junction(j)
    return odr, roads


def history(shapes, depth):
    def fn(ch, P):
        net = make(ch, shapes)
        once, _ = built(P, net)
        once.adjust_roads_and_lanes()
        want = once.get_element()
        odr, _ = built(P, net)
        n = ch.free("operations", list(range(1, depth + 1 + (ch.bound > 1))))
        text, adjusted = ref.dump(odr.get_element()), False
        for k in range(n):
            op = ch.free("operation %d" % (k + 1), OPS)
            op(P, odr)
            if op is op_adjust:
                if not adjusted:
                    text = ref.dump(odr.get_element())
                adjusted = True
            ch.op()
            now = ref.dump(odr.get_element())
            ch.req(now == text, "%s (operation %d) changes the document: %s [%s; added %s]", op.__name__, k + 1, diff(text, now), net.show(), net.order)
        ch.state(ref.dump(without_ids(want)))
        if adjusted:
            d = ref.similar(without_ids(want), without_ids(odr.get_element()))
            ch.req(d is None, "the adjusted document differs from that of the same network adjusted once and not touched before: %s", d)
    return fn


def without_ids(doc):
    """Signal and object ids are unique in the whole process, so those of two networks differ."""
    for tag in ("signal", "object"):
        for e in doc.iter(tag):
            e.attrib.pop("id", None)
    return doc


def diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    s = max(0, a.rfind("<", 0, i) - 40)
    return "... %s  ->  ... %s" % (a[s:i + 60], b[s:i + 60])


class Site:
    """A document built up step by step, complete enough to be serialised after every step."""

    def __init__(self, P):
        self.P, S, C = P, P.ElementType, P.ContactPoint
        self.odr, self.pv, self.lanes = P.OpenDrive("site"), P.PlanView(), P.Lanes()
        self.road = P.Road(1, self.pv, self.lanes)
        self.odr.add_road(self.road)
        self.line, self.secs, self.junction = P.Line(30), [], P.Junction("j", 5)
        self.odr.add_junction(self.junction)
        self.mark, self.obj = P.RoadMark(P.RoadMarkType.broken, 0.2, length=4), P.Object(3, 4, P.ObjectType.pole, height=2)
        self.cons = [P.Connection(1, 9, C.start), P.Connection(2, 9, C.end)]
        self.other = P.create_road(P.Line(20), 2)

    def section(self, s):
        self.secs.append(self.P.LaneSection(s, self.P.Lane()))

    def lane(self, k, side, w=3):
        getattr(self.secs[k], "add_%s_lane" % side)(self.P.Lane(a=w))

    def linked(self):
        l, (a, b) = self.P.LaneLinker(), self.secs
        for x, y in zip(a.leftlanes + a.rightlanes, b.leftlanes + b.rightlanes):
            l.add_link(x, y)
        self.lanes.add_lanesection(b, l)

    def steps(self):
        P, S, C = self.P, self.P.ElementType, self.P.ContactPoint
        return [
            ("geometry", lambda: self.pv.add_geometry(self.line)), ("section", lambda: self.section(0)), ("section added", lambda: self.lanes.add_lanesection(self.secs[0])),
            ("left lane", lambda: self.lane(0, "left")), ("right lane", lambda: self.lane(0, "right")), ("second left lane", lambda: self.lane(0, "left", 2)), ("second right lane", lambda: self.lane(0, "right", 2)),
            ("mark", lambda: self.secs[0].leftlanes[0].add_roadmark(self.mark)), ("shared mark", lambda: self.secs[0].centerlane.add_roadmark(self.mark)),
            ("second section", lambda: (self.section(10), self.lane(1, "left"), self.lane(1, "right"), self.linked())), ("left lane in the second section", lambda: self.lane(1, "left", 2.5)),
            ("connection", lambda: self.junction.add_connection(self.cons[0])), ("lane link", lambda: self.cons[0].add_lanelink(1, -1)), ("second connection", lambda: self.junction.add_connection(self.cons[1])),
            ("lane link there", lambda: self.cons[1].add_lanelink(-1, 1)), ("second lane link", lambda: self.cons[0].add_lanelink(2, -2)),
            ("signal", lambda: self.road.add_signal(P.Signal(1, -2, "de", "274"))), ("object", lambda: self.road.add_object(self.obj)), ("repeated", lambda: self.obj.repeat(20, 5)), ("repeated again", lambda: self.obj.repeat(7, 2, tStart=1)),
            ("second road", lambda: self.odr.add_road(self.other)), ("successor", lambda: self.road.add_successor(S.road, 2, C.start)), ("predecessor", lambda: self.other.add_predecessor(S.road, 1, C.end)),
            ("neighbour", lambda: self.road.add_neighbor(S.road, 7, P.Direction.same)), ("second geometry", lambda: self.pv.add_geometry(P.Arc(0.05, angle=0.5))), ("third road", lambda: (self.odr.add_road(P.create_road(self.line, 3)), self.odr.roads["3"].add_predecessor(S.road, 2, C.end), self.other.add_successor(S.road, 3, C.start))),
            ("adjusted", lambda: self.fit() or self.odr.adjust_roads_and_lanes()), ("late signal", lambda: self.road.add_signal([P.Signal(2, 2, "se", "1"), P.Signal(4, 2, "se", "2")])), ("roadside", lambda: self.other.add_object_roadside(P.Object(0, 0), 5)), ("late mark", lambda: self.other.lanes.lanesections[0].rightlanes[0].add_roadmark(self.mark)),
            ("second neighbour", lambda: self.road.add_neighbor(S.junction, 8, P.Direction.opposite)), ("late lane", lambda: self.lane(0, "right", 1)),
        ]

    def fit(self):
        for side in ("left", "right"):
            while len(getattr(self.other.lanes.lanesections[0], side + "lanes")) < len(getattr(self.secs[1], side + "lanes")):
                getattr(self.other.lanes.lanesections[0], "add_%s_lane" % side)(self.P.Lane(a=3))
            while len(getattr(self.odr.roads["3"].lanes.lanesections[0], side + "lanes")) < len(getattr(self.other.lanes.lanesections[0], side + "lanes")):
                getattr(self.odr.roads["3"].lanes.lanesections[0], "add_%s_lane" % side)(self.P.Lane(a=3))

    def everything(self):
        """Every part serialised on its own."""
        for r in self.odr.roads.values():
            for x in [r, r.links, r.planview, r.lanes] + r.signals + r.objects + r.lanes.lanesections:
                x.get_element()
            for s in r.lanes.lanesections:
                for l in s.leftlanes + s.rightlanes + [s.centerlane]:
                    l.get_element(), l.get_attributes(), l.links.get_element()
        for x in [self.junction, self.mark, self.line] + self.cons:
            x.get_element()


def between(ch, P):
    """Serialising while a document is still being built changes nothing in what is built."""
    site, plain = Site(P), Site(P)
    steps, other = site.steps(), plain.steps()
    how = ch.free("serialised", OPS[1:] + ["every part"])
    at = ch.free("after", list(range(len(steps))) + ["each step", "every third step"])
    more = ch.dev("and after", list(range(len(steps)))) if ch.bound and isinstance(at, int) else None
    for i, ((n, f), (_, g)) in enumerate(zip(steps, other)):
        f()
        g()
        if i in (at, more) or at == "each step" or at == "every third step" and i % 3 == 2:
            before = ref.dump(site.odr.get_element())
            site.everything() if how == "every part" else how(P, site.odr)
            ch.op()
            now = ref.dump(site.odr.get_element())
            ch.req(before == now, "%s after step %r changes the document: %s", how if isinstance(how, str) else how.__name__, n, diff(before, now))
    a, b = (ref.dump(without_ids(x.odr.get_element())) for x in (plain, site))
    ch.req(a == b, "serialising (%s) after step %s while building changes what is built: %s", how if isinstance(how, str) else how.__name__, steps[at][0] if isinstance(at, int) else at, diff(a, b))
    ch.state((a, at))


def often(ch, P):
    """Long runs of one operation, then of another."""
    net = make(ch, list(SHAPES), False)
    odr, _ = built(P, net)
    odr.adjust_roads_and_lanes()
    text = ref.dump(odr.get_element())
    a, b = ch.free("operation", OPS), ch.free("then", OPS)
    for i in range(12):
        a(P, odr)
        ch.op()
        now = ref.dump(odr.get_element())
        ch.req(now == text, "%s, %d times, changes the document: %s [%s]", a.__name__, i + 1, diff(text, now), net.show())
    b(P, odr)
    now = ref.dump(odr.get_element())
    ch.req(now == text, "%s after many times %s changes the document: %s [%s]", b.__name__, a.__name__, diff(text, now), net.show())
    ch.state(ref.dump(without_ids(odr.get_element())))


def growing(shapes, batches):
    def fn(ch, P):
        net = make(ch, shapes, False)
        # any order, cut into batches; every batch leaves the network connected
        names = list(net.roads)
        order, cuts = [], []
        left = list(names)
        while left:
            opts = [n for n in left if not order or linked(net, n, order) or net.roads[n].fixed is not None]
            if not order:
                opts = [n for n in opts if net.roads[n].junction is None]
                fixed = [n for n in opts if net.roads[n].fixed is not None]
                opts = fixed or opts
            x = ch.free("road %d" % (len(order) + 1), opts)
            left.remove(x)
            order.append(x)
            if left and len(cuts) + 1 < batches and ch.free("adjust after %d" % len(order), ["no", "yes"]) == "yes":
                cuts.append(len(order))
        if not cuts:
            return
        style = ch.dev("links declared", ["when both roads are there", "at once"])
        ops = [ch.dev("between", [None] + OPS[1:]) for _ in cuts]

        def grow(stops):
            odr, roads, open_ = P.OpenDrive("grown"), {}, []
            for i, n in enumerate(order):
                roads[n] = net.road(P, n, links=False)
                open_ += [(n, e) for e in ENDS]
                for q in list(open_):
                    l = net.roads[q[0]].at(q[1])
                    if l is None or l[0] == "junction" or l[1] in roads or (style == "at once" and i == 0):
                        if l is not None:
                            net.declare(P, roads[q[0]], q[0], q[1])
                        open_.remove(q)
                odr.add_road(roads[n])
                if i + 1 in stops:
                    odr.adjust_roads_and_lanes()
                    if ops[stops.index(i + 1)]:
                        ops[stops.index(i + 1)](P, odr)
            odr.adjust_roads_and_lanes()
            return odr
        a = grow([])
        b = grow(cuts)
        ch.op(len(order) * 2 + len(cuts) + 2)
        x, y = a.get_element(), b.get_element()
        ch.state(ref.dump(x))
        d = ref.similar(x, y)
        ch.req(d is None, "adding all roads and adjusting once / adjusting after roads %s too: %s [%s; added %s]", cuts, d, net.show(), order)
    return fn


def linked(net, n, order):
    for u, ue, v, ve, off in net.joints():
        if (u == n and v in order) or (v == n and u in order):
            return True
    return False


def generated(ch, P):
    """A generated crossing, its junction, and roads added later."""
    from .c12 import SHAPES as ANGLES
    angles = ch.free("angles", ANGLES)
    roads = [P.create_road(P.Line(30), i + 1) if ch.dev("made by", ["create_road", "create_straight_road"]) == "create_road" else P.create_straight_road(i + 1, 30) for i in range(len(angles))]
    conns = P.create_junction_roads(roads, list(angles), ch.dev("radius", [10, 8]))
    odr = P.OpenDrive("generated")
    batches = ch.free("added", ["all", "two batches", "three batches"])
    extra = P.create_straight_road(50, 20)
    steps = {"all": [roads + conns + [extra]], "two batches": [roads + conns, [extra]], "three batches": [roads + conns, [extra], [P.create_straight_road(51, 20)]]}[batches]
    extra.add_predecessor(P.ElementType.road, roads[1].id, P.ContactPoint.end)
    if batches == "three batches":
        steps[2][0].add_predecessor(P.ElementType.road, 50, P.ContactPoint.end)
    for s in steps:
        for r in s:
            if r is extra:
                roads[1].add_successor(P.ElementType.road, 50, P.ContactPoint.start)
            elif r.id == 51:
                extra.add_successor(P.ElementType.road, 51, P.ContactPoint.start)
            odr.add_road(r)
        odr.adjust_roads_and_lanes()
        ch.op(len(s) + 1)
    odr.add_junction(P.create_junction(conns, 1, roads))
    text = ref.dump(odr.get_element())
    ch.state(text)
    for k in range(2):
        op = ch.free("operation %d" % k, OPS)
        op(P, odr)
        ch.op()
        now = ref.dump(odr.get_element())
        ch.req(now == text, "%s changes the document: %s", op.__name__, diff(text, now))
    nets_els = ref.road_elems(odr.get_element())
    ch.req(len(nets_els) == len(roads) + len(conns) + sum(len(s) for s in steps) - len(roads) - len(conns), "roads appear or vanish")


SCENARIOS = [
    Scenario("history", history(["chain", "two", "ring"], 2), 1, 2), Scenario("history-junction", history(["junction"], 3), 0, 1), Scenario("history-junction-again", history(["junction"], 1), 1, 2),
    Scenario("history-more", history(["hub", "ring through a junction", "crossing"], 2), 0, 1),
    Scenario("growing", growing(["chain", "ring"], 3), 1, 2), Scenario("growing-junction", growing(["junction"], 3), 0, 1),
    Scenario("growing-more", growing(["hub", "ring through a junction"], 2), 0, 1), Scenario("generated", generated, 1, 2), Scenario("growing-trees", growing(["tree"], 2), 0, 1),
    Scenario("often", often, 0, 1), Scenario("between", between, 0, 1),
]
ASSUMPTIONS = ["roads added later are linked to the network already there and have no fixed start of their own, unless the network already has one (otherwise the anchor of the network would change)",
               "headings of roads reached on several ways around a ring are compared as directions, numbers up to rounding"]
