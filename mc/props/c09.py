"""Lanes of consecutive roads are linked one-to-one."""
from ..engine import Scenario, Violation
from .. import nets, lanelinks
from ..nets import R, Net

SECS = [((1, 1),), ((1, 2),), ((2, 1),), ((0, 1),), ((1, 0),), ((3, 3),)]
MULTI = [((1, 1), (2, 1)), ((2, 1), (1, 1)), ((2, 1), (1, 1), (2, 1)), ((1, 1), (0, 2), (2, 1))]


def run(ch, P, net):
    odr, roads = net.build(P)
    want, bad = lanelinks.road_links(net)
    more, bad2 = lanelinks.connecting_links(net)
    ch.op(len(net.roads) + 1)
    try:
        odr.adjust_roads_and_lanes()
    except P.exceptions.NotSameAmountOfLanesError:
        if not bad and not bad2:
            raise Violation("NotSameAmountOfLanesError although all lane numbers match [%s; lanes %s]" % (net.show(), {n: r.secs for n, r in net.roads.items()}))
        ch.outcome("lane numbers differ")
        ch.state(("bad", net.show(), [r.secs for r in net.roads.values()]))
        return
    if bad:
        raise Violation("lane numbers differ, but no NotSameAmountOfLanesError is raised [%s; lanes %s]" % (net.show(), {n: r.secs for n, r in net.roads.items()}))
    lanelinks.compare(ch, net, net.elements(odr.get_element()), want, {n for n, r in net.roads.items() if r.junction is None})


def lanes_matching(ch, net):
    """One lane make-up for all joints, with more lane sections in between by deviation."""
    base = ch.free("lanes", SECS)
    for n, r in net.roads.items():
        r.secs = list(base)
        inner = ch.dev("sections of " + n, [(), ((2, 2),), ((0, 1), (1, 0))])
        if inner:
            r.secs = list(base) + list(inner) + list(base)


def matching(shape):
    def fn(ch, P):
        net = shape(ch)
        lanes_matching(ch, net)
        if ch.dev("fixed road", [False, True]):
            net.roads["B"].fixed = (5.0, 6.0, 0.7)
        net.number(ch)
        nets.ordering(ch, net)
        run(ch, P, net)
    return fn


def any_counts(ch, P):
    """Two roads with every combination of lane sections at both sides of the joint, in both orders and directions."""
    net = Net([R(x, nets.GEOMS[0]) for x in "AB"])
    for r in net.roads.values():
        r.secs = list(ch.free("lanes of " + r.name, SECS + MULTI))
    w = {x: nets.way(ch, x) for x in "AB"}
    net.road_link("A", w["A"][1], "B", w["B"][0])
    net.number(ch)
    nets.ordering(ch, net)
    run(ch, P, net)


def varying(ch, P):
    """Chains and rings whose lane sections change along the roads."""
    n = ch.free("roads", [2, 3])
    net = nets.ring(ch, n) if ch.free("closed", [False, True]) else nets.chain(ch, n)
    for r in net.roads.values():
        r.secs = list(ch.free("lanes of " + r.name, [((1, 1),)] + MULTI[:2] + [((1, 1), (0, 2), (1, 1))]))
    net.number(ch)
    nets.ordering(ch, net, n == 2)
    run(ch, P, net)


def with_junction(ch, P):
    """Ordinary joints next to a junction: connecting roads do not disturb them."""
    net = nets.through_junction(ch, tail=True, offsets=(0,))
    base = ch.free("lanes", SECS[:3])
    for r in net.roads.values():
        r.secs = list(base)
    net.roads["C"].secs = [(1, 1)]
    for x in "BD":
        if ch.dev("sections of " + x, [False, True]):
            net.roads[x].secs = list(base) + [(2, 2)] + list(base)
    net.number(ch)
    nets.ordering(ch, net)
    run(ch, P, net)


def one_sided(ch, P):
    """No links where only one road declares the other, or where they meet head to head, or only via a junction of the same id."""
    net = nets.chain(ch, 3, ("both", "first", "second"))
    for a, b in (("A", "B"), ("B", "C")):
        pass
    for n in ("A", "C"):
        for e in nets.ENDS:
            if net.roads[n].at(e) is None and ch.dev("junction at %s of %s" % (e, n), [False, True]):
                net.roads[n].set(e, ("junction", "B"))
    net.number(ch)
    net.ids["junction", "B"] = net.ids["B"]
    nets.ordering(ch, net)
    odr, roads = net.build(P)
    want, bad = lanelinks.road_links(net)
    ch.op(4)
    try:
        odr.adjust_roads_and_lanes()
    except P.exceptions.UndefinedRoadNetwork:
        ch.outcome("undefined")
        return
    lanelinks.compare(ch, net, net.elements(odr.get_element()), want)


def merged_ids(ch, P):
    """Road ids that read alike in part (1, 11, 111, 1.0 as text) or repeat the digits of lane ids."""
    ids = ch.free("ids", [(1, 11, 111), ("1", "01", "001"), ("A", "a", "AA"), (10, 1, 101), (-1, 1, -11), ("-1", "1", "1 ")])
    n = ch.free("roads", [2, 3])
    net = nets.chain(ch, n)
    nets.ordering(ch, net)
    net.ids = dict(zip("ABC", ids))
    text = ch.free("references", ["same", "text"])
    net.idv, net.refv = (lambda k: net.ids[k]), (lambda k: net.ids[k] if text == "same" else str(net.ids[k]))
    run(ch, P, net)


def long(ch, P):
    """Up to 31 roads in a row, each with three lane sections."""
    net = nets.long_chain(ch, secs=((2, 1), (1, 1), (2, 1)))
    net.number(ch)
    run(ch, P, net)


WIDE = [0, 1, 2, 5, 9, 10, 11, 16, 30]


def wide(ch, P):
    """Many lanes and many lane sections."""
    net = Net([R(x, nets.GEOMS[0]) for x in "AB"])
    net.road_link("A", "end", "B", "start")
    base = ch.free("left lanes", WIDE), ch.free("right lanes", WIDE)
    for r in net.roads.values():
        r.secs = [base] + [((1, 1), base, (2, 0))[i % 3] for i in range(ch.free("sections of " + r.name, [1, 2, 5, 13]) - 2)]
        if ch.free("closed", [True, False]):
            r.secs.append(base)
    if ch.dev("mismatch", [False, True]):
        net.roads["B"].secs[0] = (base[0], base[1] + 1)
    net.number(ch)
    nets.ordering(ch, net)
    run(ch, P, net)


def trees(steps, full):
    """All networks without rings of that many roads."""
    def fn(ch, P):
        net = nets.tree(ch, steps, geoms=False)
        for n, r in net.roads.items():
            r.secs = [(1, 1)] if r.junction else list(ch.dev("lanes of " + n, [((2, 1), (1, 2), (2, 1)), ((2, 1), (1, 2)), ((2, 1),)]))
        net.number(ch)
        nets.ordering(ch, net, full)
        run(ch, P, net)
    return fn


def rivals(ch, P):
    """Two roads that claim the same end of a third."""
    net = nets.rivals(ch)
    for r in net.roads.values():
        r.secs = list(ch.dev("lanes of " + r.name, [((2, 1),), ((2, 1), (1, 1), (2, 1)), ((1, 1),)]))
    net.number(ch)
    nets.ordering(ch, net)
    odr, roads = net.build(P)
    want, bad = lanelinks.road_links(net)
    ch.op(4)
    try:
        odr.adjust_roads_and_lanes()
    except P.exceptions.UndefinedRoadNetwork:  # not all declarations are mutual
        ch.outcome("undefined")
        return
    except P.exceptions.NotSameAmountOfLanesError:
        ch.req(bad, "NotSameAmountOfLanesError although all lane numbers match [%s; lanes %s]", net.show(), {n: r.secs for n, r in net.roads.items()})
        ch.outcome("lane numbers differ")
        return
    ch.req(not bad, "lane numbers differ, but no NotSameAmountOfLanesError is raised [%s; lanes %s]", net.show(), {n: r.secs for n, r in net.roads.items()})
    lanelinks.compare(ch, net, net.elements(odr.get_element()), want)


SCENARIOS = [Scenario("rivals", rivals, 1, 3), Scenario("trees", trees(2, True), 1, 2), Scenario("trees3", trees(3, False), 0, 1), Scenario("wide", wide, 0, 1), Scenario("long", long, 0, 1), Scenario("counts", any_counts, 1, 2), Scenario("chain3", matching(lambda ch: nets.chain(ch, 3)), 1, 2), Scenario("chain4", matching(lambda ch: nets.chain(ch, 4)), 0, 1),
             Scenario("ring2", matching(lambda ch: nets.ring(ch, 2)), 2, 3), Scenario("ring3", matching(lambda ch: nets.ring(ch, 3)), 1, 2),
             Scenario("varying", varying, 0, 1), Scenario("junction", with_junction, 1, 2), Scenario("one-sided", one_sided, 1, 3), Scenario("alike", merged_ids, 1, 2)]
