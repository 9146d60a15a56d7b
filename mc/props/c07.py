"""Adjustment places everything or reports an undefined network."""
from ..engine import Scenario, Violation
from .. import nets, ref
from ..nets import R, Net


def run(ch, P, net, fresh_names=None):
    odr, roads = net.build(P)
    ch.op(len(net.roads) + 1)
    adjust = ch.dev("adjusted by", ["adjust_startpoints", "adjust_roads_and_lanes"])
    expect = len(net.placement()) == len(net.roads)
    try:
        getattr(odr, adjust)()
    except P.exceptions.UndefinedRoadNetwork:
        if expect:
            raise Violation("UndefinedRoadNetwork although every road is connected to an anchor [%s; added %s]" % (net.show(), net.order))
        ch.outcome("undefined")
        ch.state(("undefined", net.show(), net.order))
        return
    if not expect:
        out = sorted(set(net.roads) - set(net.placement()))
        raise Violation("roads %s are not connected to an anchor, but no UndefinedRoadNetwork is raised [%s; added %s]" % (out, net.show(), net.order))
    ch.outcome("placed")
    nets.check_placement(ch, net, net.elements(odr.get_element()))


def anchors(ch, net, k=1):
    """up to k fixed roads, consistent with each other where they are connected"""
    names = [n for n, r in net.roads.items() if r.junction is None]
    f = ch.dev("fixed road", [None] + names)
    if not f:
        return
    net.roads[f].fixed = ch.free("at", nets.POSES[1:])
    if k > 1:
        g = ch.dev("second fixed road", [None] + [n for n in names if n != f])
        if g:
            pos = net.placement()
            net.roads[g].fixed = pos.get(g, (500.0, 300, 1.25))


def simple(shape):
    def fn(ch, P):
        net = shape(ch)
        anchors(ch, net, 2)
        net.number(ch)
        nets.ordering(ch, net)
        run(ch, P, net)
    return fn


def drop(ch, net):
    """Leave out any set of joints."""
    js = {}
    for u, ue, v, ve, off in net.joints():
        js.setdefault(frozenset([(u, ue), (v, ve)]), []).append((u, ue))
    for key, who in js.items():
        if ch.free("joint %s" % "-".join(sorted("%s.%s" % k for k in key)), ["kept", "left out"]) == "left out":
            for u, ue in who:
                if ue == "start":
                    net.roads[u].pred = None
                else:
                    net.roads[u].succ = None


def partial(shape):
    def fn(ch, P):
        net = shape(ch)
        drop(ch, net)
        anchors(ch, net, 2)
        net.number(ch)
        nets.ordering(ch, net)
        run(ch, P, net)
    return fn


def with_stranger(ch, P):
    """A connected network and a separate component that is fixed or not."""
    net = (nets.chain(ch, 2) if ch.free("shape", ["chain", "junction"]) == "chain" else nets.through_junction(ch, tail=False, offsets=(0,)))
    kind = ch.free("stranger", ["road", "pair", "connecting road", "road with junction links"])
    X = R("X", nets.GEOMS[0])
    Y = R("Y", nets.GEOMS[1], junction="Z" if kind == "connecting road" else None)
    net.roads["X"] = X
    if kind == "road with junction links":
        X.succ = ("junction", "J")
        net.roads["C"] = net.roads.get("C") or R("C", nets.GEOMS[0], junction="J")
        if net.roads["C"].pred is None:
            net.roads["C"].pred = ("road", "A", ch.free("C at", nets.ENDS), 0)
    if kind == "pair":
        net.roads["Y"] = Y
        net.road_link("X", "end", "Y", "start")
    if kind == "connecting road":
        net.roads["Y"] = Y
        Y.pred = ("road", "X", "end", 0)
        X.succ = ("junction", "Z")
    fixed = ch.free("fixed", [None, "A", "X", "both"])
    if fixed in ("A", "both"):
        net.roads["A"].fixed = (10.0, 20.0, 0.5)
    if fixed in ("X", "both"):
        net.roads["X"].fixed = (-400.0, 20.5, 2)
    net.number(ch)
    nets.ordering(ch, net)
    run(ch, P, net)


def long(ch, P):
    net = nets.long_chain(ch)
    ordinary = [n for n, r in net.roads.items() if r.junction is None]
    f = ch.free("fixed road", [None, ordinary[0], ordinary[len(ordinary) // 2], ordinary[-1]])
    if f:
        net.roads[f].fixed = (10.0, -20.0, 0.5)
    cut = ch.dev("cut", [None, "near the end"])
    if cut:
        u = ordinary[-2]
        net.roads[u].pred = net.roads[u].succ = None
        for r in net.roads.values():
            for l in ("pred", "succ"):
                if getattr(r, l) and getattr(r, l)[:2] == ("road", u):
                    setattr(r, l, None)
    net.number(ch)
    run(ch, P, net)


def tiny(ch, P):
    odr = P.OpenDrive("tiny")
    n = ch.free("roads", [0, 1, 2])
    adjust = ch.free("adjusted by", ["adjust_startpoints", "adjust_roads_and_lanes"])
    if n == 0:
        getattr(odr, adjust)()
        ch.req(len(odr.get_element().findall("road")) == 0, "roads appear from nowhere")
        return
    net = Net([R(x, nets.GEOMS[0]) for x in "AB"[:n]])
    for r in net.roads.values():
        r.fixed = ch.free("fixed", nets.POSES)
        l = ch.free("junction link", [None, "pred", "succ"])
        if l:
            setattr(r, l, ("junction", "J"))
        r.junction = None
    net.ids["junction", "J"] = ch.free("junction id", [77, 1, 0])
    net.ids.update({x: i + 1 for i, x in enumerate("AB"[:n])})
    net.idv = net.refv = lambda k: net.ids[k]
    nets.ordering(ch, net)
    run(ch, P, net)


def trees(steps, full, parts=False):
    """All networks without rings of that many roads."""
    def fn(ch, P):
        net = nets.tree(ch, steps)
        if parts:
            drop(ch, net)
        anchors(ch, net, 2)
        net.number(ch)
        nets.ordering(ch, net, full)
        run(ch, P, net)
    return fn


J = lambda ch: nets.through_junction(ch, tail=False)
SCENARIOS = [
    Scenario("trees", trees(2, True), 0, 1), Scenario("trees3", trees(3, False), 0, 1), Scenario("partial-trees", trees(2, True, True), 0, 1),
    Scenario("tiny", tiny), Scenario("chain3", simple(lambda ch: nets.chain(ch, 3))), Scenario("junction", simple(J)),
    Scenario("junction-tail", simple(lambda ch: nets.through_junction(ch, tail=True))), Scenario("hub", simple(lambda ch: nets.hub(ch, 2)), 0, 2),
    Scenario("two-junctions", simple(lambda ch: nets.two_junctions(ch)), 0, 2),
    Scenario("ring3", simple(lambda ch: nets.ring(ch, 3, ch.free("connecting", ["", "A", "B"])))),
    Scenario("ring4", simple(lambda ch: nets.ring(ch, 4, ch.free("connecting", ["", "B", "BD"]))), 0, 2),
    Scenario("partial-chain4", partial(lambda ch: nets.chain(ch, 4)), 0, 2), Scenario("partial-junction", partial(J)),
    Scenario("partial-tail", partial(lambda ch: nets.through_junction(ch, tail=True)), 0, 2),
    Scenario("partial-crossing", partial(lambda ch: nets.crossing(ch, 3)), 0, 1),
    Scenario("stranger", with_stranger), Scenario("long", long, 0, 1),
]
ASSUMPTIONS = ["ordinary roads declare links to each other mutually", "several fixed starts in one connected part of a network are consistent with its links"]
