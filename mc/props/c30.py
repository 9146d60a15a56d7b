"""A failed adjustment does no harm: the completed network comes out as if it had been adjusted only once."""
from ..engine import Scenario, Skip
from .. import nets, ref
from ..nets import R, Net, ENDS


def outcome(P, odr):
    try:
        odr.adjust_roads_and_lanes()
    except P.exceptions.UndefinedRoadNetwork:
        return "undefined"
    except P.exceptions.NotSameAmountOfLanesError:
        return "lanes"
    return "adjusted"


class Partial:
    """A network with some of its parts left out at first."""

    def __init__(self, P, net, without, order):
        self.P, self.net, self.without = P, net, without
        self.odr, self.roads = P.OpenDrive("net"), {}
        for n in order:
            self.roads[n] = self.road(n)
            if ("road", n) not in without:
                self.odr.add_road(self.roads[n])

    def road(self, n):
        r = self.net.roads[n]
        lanes, self.net.lanes = self.net.lanes, self.lanes
        try:
            road = self.net.road(self.P, n, links=False)
        finally:
            self.net.lanes = lanes
        for e in ENDS:
            if ("link", n, e) not in self.without:
                self.net.declare(self.P, road, n, e)
        return road

    def lanes(self, P, r):
        ls = P.Lanes()
        for k, (nl, nr) in enumerate(r.secs):
            sec = P.LaneSection(k * r.length / len(r.secs), P.Lane())
            for _ in range(nl - (("lanes", r.name, "left") in self.without)):
                sec.add_left_lane(P.Lane(a=3))
            for _ in range(nr - (("lanes", r.name, "right") in self.without)):
                sec.add_right_lane(P.Lane(a=3))
            ls.add_lanesection(sec)
        return ls

    def supply(self, part):
        if part[0] == "road":
            self.odr.add_road(self.roads[part[1]])
        elif part[0] == "link":
            self.net.declare(self.P, self.roads[part[1]], part[1], part[2])
        else:
            for sec in self.roads[part[1]].lanes.lanesections:
                getattr(sec, "add_%s_lane" % part[2])(self.P.Lane(a=3))

    def document(self):
        doc = self.odr.get_element()
        doc[:] = [doc[0]] + sorted(doc[1:], key=lambda x: (x.tag, x.get("id")))
        for l in doc.iter("link"):
            l[:] = sorted(l, key=lambda x: (x.tag, x.get("id") or "", x.get("elementId") or ""))
        return doc


def run(ch, P, net, parts, again=True):
    net.number(ch, styles=("int", "text"))
    order = ch.devperm("added", list(net.roads))
    if all(r.fixed is None for r in net.roads.values()):  # the anchor is the first ordinary road added: it is there from the beginning
        first = next(n for n in order if net.roads[n].junction is None)
        parts = [p for p in parts if p != ("road", first)]
    else:
        parts = [p for p in parts if p[0] != "road" or net.roads[p[1]].fixed is None]
    whole = Partial(P, net, (), order)
    o = outcome(P, whole.odr)
    assert o == "adjusted", (o, net.show())
    missing = []
    for p in parts:
        if ch.dev("%s is missing at first" % (p,), [False, True]):
            missing.append(p)
    if any(p[0] == "road" for p in missing):  # nobody refers to a road that is not there
        gone = {p[1] for p in missing if p[0] == "road"}
        for n, r in net.roads.items():
            for e in ENDS:
                l = r.at(e)
                if l and l[0] == "road" and l[1] in gone and n not in gone and ("link", n, e) not in missing:
                    missing.append(("link", n, e))
    if not missing:
        raise Skip()
    if ch.free("supplied", ["in order", "backwards"]) == "backwards":
        missing.reverse()
    missing.sort(key=lambda p: p[0] != "road")
    between = ch.free("after each part", ["nothing", "adjusting", "adjusting and reading"])
    b = Partial(P, net, missing, order)
    times = ch.dev("tried", [1, 2, 7])
    seen = [outcome(P, b.odr) for _ in range(times)]
    ch.op(times)
    for i, p in enumerate(missing):
        b.supply(p)
        ch.op()
        if between != "nothing" and i < len(missing) - 1 and not (p[0] == "road"):
            if between == "adjusting and reading":
                b.odr.get_element() if seen[-1] != "undefined" else None
            seen.append(outcome(P, b.odr))
    last = outcome(P, b.odr)
    ch.req(last == "adjusted", "with %s missing adjusting gives %s; after supplying them it gives %s", missing, seen, last)
    for s in seen:
        ch.outcome(s)
    want, got = whole.document(), b.document()
    ch.state(ref.dump(got))
    d = ref.similar(want, got)
    ch.req(d is None, "%s missing at first (%s) [%s; added %s]: %s", missing, seen, net.show(), order, d)


def parts_of(net, lanes=()):
    return [("link", n, e) for n, r in net.roads.items() for e in ENDS if r.at(e)] + [("road", n) for n in net.roads] + [("lanes", n, side) for n in lanes for side in ("left", "right")]


def chain(ch, P):
    net = nets.chain(ch, 3, secs={x: ((1, 1),) for x in "ABC"})
    f = ch.free("fixed", ["none", "A", "B", "C"])
    if f != "none":
        net.roads[f].fixed = (5.0, 6.0, 1.0)
    run(ch, P, net, parts_of(net))


def junction(ch, P):
    net = nets.through_junction(ch, tail=True, offsets=(0,))
    f = ch.free("fixed", ["none", "A", "C", "D"])
    if f != "none":
        net.roads[f].fixed = (5.0, 6.0, 1.0)
    for r in net.roads.values():
        r.secs = [(2, 2)]
    run(ch, P, net, parts_of(net, "ABD"))


def hub(ch, P):
    net = nets.hub(ch, 2, offsets=(0,))
    if ch.free("fixed", ["none", "A"]) == "A":
        net.roads["A"].fixed = (5.0, 6.0, 1.0)
    for r in net.roads.values():
        r.secs = [(1, 1)]
    run(ch, P, net, parts_of(net))


def trees(ch, P):
    """All networks without rings of three ordinary roads."""
    net = nets.tree(ch, 2, geoms=False)
    if ch.free("fixed", ["none", "B"]) == "B":
        net.roads["B"].fixed = (5.0, 6.0, 1.0)
    for r in net.roads.values():
        r.secs = [(1, 1)] if r.junction else [(2, 2)]
    run(ch, P, net, parts_of(net, [n for n, r in net.roads.items() if r.junction is None]))


SCENARIOS = [Scenario("trees", trees, 1, 2), Scenario("chain", chain, 2, 3), Scenario("junction", junction, 2, 3), Scenario("hub", hub, 2, 3)]
ASSUMPTIONS = ["the road that anchors the network is the same before and after the completion"]
