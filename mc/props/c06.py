"""Declared road links hold geometrically after adjustment."""
from ..engine import Scenario
from .. import nets


def finish(ch, P, net, number=True, fix=True, free_order=True, adjust=None, allow_undefined=False):
    if fix:
        f = ch.dev("fixed road", [None] + [n for n, r in net.roads.items() if r.junction is None])
        if f:
            net.roads[f].fixed = ch.free("at", nets.POSES[1:3])
    net.number(ch)
    nets.ordering(ch, net, free_order)
    odr, roads = net.build(P)
    try:
        getattr(odr, adjust or ch.dev("adjusted by", ["adjust_startpoints", "adjust_roads_and_lanes"]))()
    except P.exceptions.UndefinedRoadNetwork:
        if allow_undefined:
            ch.outcome("undefined (declared one-sidedly)")
            return
        raise
    ch.op(len(net.roads) + 1)
    ch.outcome("placed")
    nets.check_joints(ch, net, net.elements(odr.get_element()))


def chain3(ch, P):
    finish(ch, P, nets.chain(ch, 3))


def chain3_declared(ch, P):
    finish(ch, P, nets.chain(ch, 3, ("both", "first", "second")), allow_undefined=True)


def chain4(ch, P):
    finish(ch, P, nets.chain(ch, 4))


def junction(ch, P):
    finish(ch, P, nets.through_junction(ch, tail=False))


def junction_tail(ch, P):
    finish(ch, P, nets.through_junction(ch, tail=True))


def hub(ch, P):
    finish(ch, P, nets.hub(ch, 2), free_order=ch.bound > 1)


def two_junctions(ch, P):
    finish(ch, P, nets.two_junctions(ch), free_order=ch.bound > 1)


def ring2(ch, P):
    finish(ch, P, nets.ring(ch, 2, ch.free("connecting", ["", "A", "B"])))


def ring3(ch, P):
    finish(ch, P, nets.ring(ch, 3, ch.free("connecting", ["", "A", "B", "C"])))


def ring4(ch, P):
    finish(ch, P, nets.ring(ch, 4, ch.free("connecting", ["", "B", "C", "BD"])))


def crossing(ch, P):
    finish(ch, P, nets.crossing(ch, ch.free("roads", [3, 4])), free_order=False)


def offsets(ch, P):
    """Lane offsets of up to twelve lanes at either end."""
    net = nets.Net([nets.R("A", nets.GEOMS[0]), nets.R("C", nets.GEOMS[ch.free("geometry of C", [0, 1, 3])], junction="J"), nets.R("B", nets.GEOMS[1])])
    o = [ch.free("offset at " + e, [0, 1, -1, 2, 3, -3, 4, -5, 9, -10, 12]) for e in nets.ENDS]
    net.connect("C", "A", ch.free("start joins", nets.ENDS), "B", ch.free("end joins", nets.ENDS), *o)
    finish(ch, P, net)


def parts(ch, P):
    """Lane offsets that are parts of lanes: only the places count."""
    net = nets.Net([nets.R("A", nets.GEOMS[0]), nets.R("C", nets.GEOMS[ch.free("geometry of C", [0, 1])], junction="J"), nets.R("B", nets.GEOMS[1])])
    o = [ch.free("offset at " + e, [0, 0.5, -0.25, 1.5, -2.75]) for e in nets.ENDS]
    net.connect("C", "A", ch.free("start joins", nets.ENDS), "B", ch.free("end joins", nets.ENDS), *o)
    finish(ch, P, net, adjust="adjust_startpoints")


def long(ch, P):
    """Up to 31 roads in a row."""
    net = nets.long_chain(ch)
    net.number(ch)
    odr, roads = net.build(P)
    odr.adjust_startpoints()
    ch.op(len(net.roads) + 1)
    nets.check_joints(ch, net, net.elements(odr.get_element()))


def trees(steps, full=True):
    def fn(ch, P):
        finish(ch, P, nets.tree(ch, steps, (0, -1, 2)), free_order=full)
    return fn


def extreme(ch, P):
    net = nets.extreme(ch, 2, far=False)
    net.roads["AB"[ch.free("placed", [0, 1])]].fixed = ch.free("at", nets.FAR)
    finish(ch, P, net, fix=False)


SCENARIOS = [Scenario("extreme", extreme, 1, 1), Scenario("trees", trees(2), 0, 1), Scenario("trees3", trees(3, False), 0, 1), Scenario("long", long, 0, 1), Scenario("offsets", offsets, 0, 1), Scenario("parts", parts, 1, 1), Scenario("junction", junction, 1, 3), Scenario("chain3", chain3, 1, 3), Scenario("chain3-declared", chain3_declared, 1, 2), Scenario("ring2", ring2, 1, 2), Scenario("ring3", ring3, 1, 2),
             Scenario("junction-tail", junction_tail, 1, 2), Scenario("hub", hub, 1, 2), Scenario("two-junctions", two_junctions, 1, 2), Scenario("crossing", crossing, 1, 2),
             Scenario("chain4", chain4, 1, 2), Scenario("ring4", ring4, 1, 2)]
ASSUMPTIONS = ["the first road added, or a road with a fixed start, is an ordinary road or there is an ordinary road to start from"]
