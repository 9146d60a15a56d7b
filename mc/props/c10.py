"""Lanes of connecting roads are linked to the lanes they meet."""
from ..engine import Scenario, Violation
from .. import nets, lanelinks
from ..nets import R, Net, ENDS

SECS = [((1, 1),), ((2, 1),), ((1, 2),), ((0, 2),), ((2, 0),), ((2, 1), (1, 2)), ((1, 2), (2, 1)), ((1, 1), (3, 3), (1, 2))]


def run(ch, P, net):
    odr, roads = net.build(P)
    want, bad = lanelinks.connecting_links(net)
    more, bad2 = lanelinks.road_links(net)
    ch.op(len(net.roads) + 1)
    where = "[%s; lanes %s; ids %s; added %s]" % (net.show(), {n: r.secs for n, r in net.roads.items()}, net.ids, net.order)
    try:
        odr.adjust_roads_and_lanes()
    except P.exceptions.NotSameAmountOfLanesError:
        if not bad and not bad2:
            raise Violation("NotSameAmountOfLanesError although every lane has a counterpart " + where)
        ch.outcome("too many lanes")
        ch.state(("bad", where))
        return
    if bad:
        raise Violation("a connecting road has more lanes than the road it meets, but no NotSameAmountOfLanesError is raised " + where)
    want.update(more)
    lanelinks.compare(ch, net, net.elements(odr.get_element()), want)


def between(ch):
    net = Net([R(x, nets.GEOMS[0], junction="J" if x == "C" else None) for x in "ACB"])
    net.connect("C", "A", ch.free("start joins", ENDS), "B", ch.free("end joins", ENDS), 0, 0)
    return net


def counts(ch, P):
    """All lane make-ups of the three roads, all contact points."""
    net = between(ch)
    for r in net.roads.values():
        r.secs = list(ch.free("lanes of " + r.name, SECS if r.junction else SECS + [((3, 3),), ((1, 1), (2, 3)), ((3, 2), (1, 1))]))
    net.number(ch)
    nets.ordering(ch, net, ch.bound > 0)
    run(ch, P, net)


def single(ch, P):
    """Deviations of ids and order with simple lanes."""
    net = between(ch)
    for r in net.roads.values():
        r.secs = list(ch.free("lanes of " + r.name, SECS[:3]))
    net.number(ch)
    nets.ordering(ch, net)
    run(ch, P, net)


def offsets(ch, P):
    """Lane offsets that push the lanes outwards on their side."""
    net = Net([R(x, nets.GEOMS[0], junction="J" if x == "C" else None) for x in "ACB"])
    side = ch.free("side", ["left", "right"])
    s = 1 if side == "left" else -1
    o1, o2 = (s * ch.free("offset at " + e, [0, 1, 2]) for e in ENDS)
    net.connect("C", "A", ch.free("start joins", ENDS), "B", ch.free("end joins", ENDS), o1, o2)
    n = ch.free("lanes", [1, 2])
    net.roads["C"].secs = [(n, 0) if s > 0 else (0, n)] * ch.free("sections", [1, 2])
    for x in "AB":
        net.roads[x].secs = list(ch.free("lanes of " + x, [((4, 4),), ((1, 1), (4, 4), (4, 4)), ((4, 4), (1, 1), (4, 4))]))
    net.number(ch)
    nets.ordering(ch, net)
    run(ch, P, net)


def loops(ch, P):
    """Connecting roads that leave and reach the same road."""
    kind = ch.free("loop", ["end to end", "start to start", "end to start", "start to end"])
    pe, se = kind.split(" to ")
    net = Net([R("A", (("line", 100.0),)), R("C", nets.GEOMS[1], junction="J")])
    net.connect("C", "A", pe, "A", se)
    net.roads["A"].secs = list(ch.free("lanes of A", SECS))
    net.roads["C"].secs = list(ch.free("lanes of C", SECS))
    if ch.dev("more", [False, True]):
        net.roads["X"] = R("X", nets.GEOMS[0], junction="J")
        net.roads["X"].pred = ("road", "A", ch.free("X from", ENDS), 0)
        net.roads["Y"] = R("Y", nets.GEOMS[0])
        net.roads["X"].succ = ("road", "Y", "start", 0)
        net.roads["Y"].pred = ("junction", "J")
        for x in "XY":
            net.roads[x].secs = [(0, 1)]
        net.roads["A"].secs = [(1, 1)]
        net.roads["C"].secs = [(1, 1)]
    net.number(ch)
    nets.ordering(ch, net)
    run(ch, P, net)


def dead_end(ch, P):
    """Connecting roads linked at one end only."""
    net = Net([R("A", nets.GEOMS[0]), R("C", nets.GEOMS[1], junction="J"), R("B", nets.GEOMS[0])])
    e, contact = ch.free("end", ENDS), ch.free("joins", ENDS)
    net.roads["C"].set(e, ("road", "A", contact, 0))
    net.roads["A"].set(contact, ("junction", "J"))
    other = "start" if contact == "end" else "end"
    net.road_link("A", other, "B", ch.free("B at", ENDS))
    for r in net.roads.values():
        r.secs = list(ch.free("lanes", SECS[:2]))
    net.number(ch)
    nets.ordering(ch, net)
    run(ch, P, net)


def several(ch, P):
    net = nets.hub(ch, 2, offsets=(0,))
    full = ch.free("lanes", [((1, 1),), ((2, 2), (2, 2)), ((2, 1), (1, 1), (2, 1))])
    for n, r in net.roads.items():
        r.secs = list(full) if n[0] != "C" else [ch.free("lanes of " + n, [(1, 1), (0, 1), (1, 0)])]
    net.number(ch)
    nets.ordering(ch, net, False)
    run(ch, P, net)


def crossing(ch, P):
    net = nets.crossing(ch, ch.free("roads", [3, 4]))
    base = ch.free("lanes", [(1, 1), (2, 2)])
    for n, r in net.roads.items():
        r.secs = [base] if len(n) == 2 else list(ch.dev("lanes of " + n, [(base,), (base, (3, 3), base)]))
    net.number(ch)
    nets.ordering(ch, net, False)
    run(ch, P, net)


def ring(ch, P):
    n = ch.free("roads", [2, 3, 4])
    net = nets.ring(ch, n, ch.free("connecting", {2: ["A", "B"], 3: ["A", "B"], 4: ["B", "BD"]}[n]))
    base = ch.free("lanes", [(1, 1), (2, 2), (1, 2)])
    w = {}
    for r in net.roads.values():
        r.secs = [base] if ch.free("sections", [1, 2]) == 1 else [base, (3, 3), base]
    net.number(ch)
    nets.ordering(ch, net, n < 4)
    run(ch, P, net)


def long(ch, P):
    """Up to 15 connecting roads with roads in between."""
    net = nets.long_chain(ch, kinds=("junctions",), secs=ch.free("lanes", [((2, 2), (1, 1), (2, 2)), ((1, 1),)]))
    net.number(ch)
    run(ch, P, net)


def wide(ch, P):
    """Many lanes and many lane sections."""
    net = between(ch)
    n = ch.free("lanes", [3, 6, 9, 10, 11, 20])
    shift = ch.free("lane offset", [0, 4, 9, -4, -9])
    c, o = {0: ((n, n), (n, n)), 1: ((n, 0), (40, 40)), -1: ((0, n), (40, 40))}[(shift > 0) - (shift < 0)]
    k = ch.free("sections", [1, 2, 5, 12])
    for r in net.roads.values():
        b = c if r.junction else o
        r.secs = ([b] + [((1, 1), (2, 0))[i % 2] for i in range(k - 2)] + [b])[:max(k, 1)]
    if shift:
        C = net.roads["C"]
        which = ch.free("offset at", ["start", "end", "both"])
        if which != "end":
            C.pred = C.pred[:3] + (shift,)
        if which != "start":
            C.succ = C.succ[:3] + (shift,)
    net.number(ch)
    nets.ordering(ch, net)
    run(ch, P, net)


def trees(steps, full):
    """All networks without rings of that many roads."""
    def fn(ch, P):
        net = nets.tree(ch, steps, geoms=False)
        for n, r in net.roads.items():
            r.secs = list(ch.dev("lanes of " + n, [((1, 1),), ((0, 1), (1, 0)), ((2, 0),)])) if r.junction else list(ch.dev("lanes of " + n, [((2, 2),), ((2, 2), (0, 1), (2, 2))]))
        net.number(ch)
        nets.ordering(ch, net, full)
        run(ch, P, net)
    return fn


SCENARIOS = [Scenario("trees", trees(2, True), 1, 2), Scenario("trees3", trees(3, False), 0, 1), Scenario("wide", wide, 0, 1), Scenario("long", long, 0, 1), Scenario("counts", counts, 0, 1), Scenario("single", single, 1, 2), Scenario("offsets", offsets, 0, 1), Scenario("loops", loops, 1, 2), Scenario("dead-end", dead_end, 1, 2),
             Scenario("several", several, 1, 2), Scenario("crossing", crossing, 1, 2), Scenario("ring", ring, 0, 1)]
ASSUMPTIONS = ["lane offsets move lanes outwards on their side of the road (no lane is shifted across the centre)"]
