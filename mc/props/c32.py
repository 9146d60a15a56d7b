"""Linking the lanes of two roads by hand links exactly the joints of these two roads."""
from ..engine import Scenario, Violation
from .. import nets, lanelinks
from ..nets import R, Net, ENDS


class Sub:
    """The part of a network that concerns two of its roads."""

    def __init__(self, net, pair):
        self.roads = {}
        for n, r in net.roads.items():
            if n in pair:
                c = R(n, r.specs, r.junction, r.secs)
                c.pred, c.succ = (l if l and l[0] == "road" and l[1] in pair else None for l in (r.pred, r.succ))
                self.roads[n] = c


def merge(a, b):
    for k, v in b.items():
        a.setdefault(k, set()).update(v)


def run(ch, P, net, depth, adjust=True):
    odr, roads = net.build(P)
    names = list(net.roads)
    pairs = [(a, b) for a in names for b in names if a != b]
    linkable = [p for p in pairs if net.roads[p[0]].junction is None or net.roads[p[1]].junction is None]
    where = "[%s; lanes %s; ids %s; added %s]" % (net.show(), {n: r.secs for n, r in net.roads.items()}, net.ids, net.order)
    for a, b in pairs:
        A, B = net.roads[a], net.roads[b]
        want = A.succ == ("road", b, "start", 0) and B.pred == ("road", a, "end", 0)
        if A.junction is None and B.junction is None:
            got = P.are_roads_consecutive(roads[a], roads[b])
            ch.req(bool(got) == want, "road %s %s follow road %s directly, but are_roads_consecutive gives %s %s", b, "does" if want else "does not", a, got, where)
    want, done = {}, []
    todo = [ch.free("linked", linkable)]
    for _ in range(depth - 1):
        todo.append(ch.free("then", [None] + linkable + (["adjusted"] if adjust else [])))
    for p in todo:
        if p is None:
            continue
        done.append(p)
        if p == "adjusted":
            more, bad = lanelinks.road_links(net)
            more2, bad2 = lanelinks.connecting_links(net)
        else:
            sub = Sub(net, p)
            more, bad = lanelinks.road_links(sub)
            more2, bad2 = lanelinks.connecting_links(sub)
        ch.op()
        try:
            if p == "adjusted":
                odr.adjust_roads_and_lanes()
            else:
                P.create_lane_links(roads[p[0]], roads[p[1]])
        except P.exceptions.NotSameAmountOfLanesError:
            ch.req(bad or bad2, "NotSameAmountOfLanesError from linking %s although all lane numbers match %s", done, where)
            ch.outcome("lane numbers differ")
            ch.state(("bad", where, done))
            return
        ch.req(not bad and not bad2, "lane numbers differ, but no NotSameAmountOfLanesError is raised by linking %s %s", done, where)
        merge(want, more)
        merge(want, more2)
    els = net.elements(odr.get_element())
    got = lanelinks.written(els)
    ch.state((sorted(got.items()), net.show()))
    for k in sorted(set(want) | set(got)):
        w = sorted((a, str(b)) for a, b in want.get(k, ()))
        ch.req(w == sorted(got.get(k, [])), "after linking %s lane %d of lane section %d of road %s has links %s instead of %s %s", done, k[2], k[1], k[0], got.get(k, []), w, where)
    if want:
        ch.outcome("links")


SECS = [((1, 1),), ((2, 1),), ((1, 2), (2, 2), (1, 2)), ((2, 1), (1, 1))]


def consecutive(ch, P):
    """Two roads, every way to meet, every lane make-up."""
    net = Net([R(x, nets.GEOMS[0]) for x in "AB"])
    for r in net.roads.values():
        r.secs = list(ch.free("lanes of " + r.name, SECS))
    net.road_link("A", ch.free("end of A", ENDS), "B", ch.free("end of B", ENDS), ch.dev("declared", ["both", "first", "second"]))
    if ch.free("closed", [False, True]):
        other = {"start": "end", "end": "start"}
        ends = [next(e for e in ENDS if not net.roads[x].at(e)) if [e for e in ENDS if net.roads[x].at(e)] else "start" for x in "AB"]
        net.road_link("A", ends[0], "B", ends[1])
    net.number(ch)
    nets.ordering(ch, net)
    run(ch, P, net, 2, adjust=False)


def through(ch, P):
    """A connecting road between two roads, with lane offsets, and a road behind."""
    net = nets.through_junction(ch, tail=ch.dev("tail", [False, True]), offsets=(0, 1, 2))
    side = ch.free("lanes", [(1, 1), (1, 0), (2, 2)])
    C = net.roads["C"]
    if C.pred[3] or C.succ[3]:
        side = (1, 0)
    for n, r in net.roads.items():
        r.secs = [side, side] if r.junction else list(ch.dev("lanes of " + n, [((3, 3),), ((1, 1), (3, 3), (3, 3)), ((3, 3), (1, 1))]))
    net.number(ch)
    nets.ordering(ch, net, False)
    run(ch, P, net, 2)


def loop(ch, P):
    """A connecting road with both ends at one road."""
    pe, se = ch.free("from", ENDS), ch.free("to", ENDS)
    net = Net([R("A", (("line", 100.0),)), R("C", nets.GEOMS[1], junction="J")])
    net.connect("C", "A", pe, "A", se)
    net.roads["A"].secs = list(ch.free("lanes of A", SECS))
    net.roads["C"].secs = list(ch.free("lanes of C", SECS))
    net.number(ch)
    nets.ordering(ch, net)
    run(ch, P, net, 2, adjust=False)


def dead_end(ch, P):
    """Connecting roads linked at one end only, next to an ordinary joint."""
    net = Net([R("A", nets.GEOMS[0]), R("C", nets.GEOMS[1], junction="J"), R("B", nets.GEOMS[0])])
    e, contact = ch.free("end", ENDS), ch.free("joins", ENDS)
    net.roads["C"].set(e, ("road", "A", contact, 0))
    if ch.dev("junction declared", [True, False]):
        net.roads["A"].set(contact, ("junction", "J"))
    net.road_link("A", "start" if contact == "end" else "end", "B", ch.free("B at", ENDS))
    for r in net.roads.values():
        r.secs = list(ch.free("lanes of " + r.name, SECS[:2] + [((1, 1), (2, 2))]))
    net.number(ch)
    nets.ordering(ch, net, False)
    run(ch, P, net, 2)


def chains(n):
    def fn(ch, P):
        net = nets.chain(ch, n) if not ch.free("ring", [False, True]) else nets.ring(ch, n)
        for r in net.roads.values():
            r.secs = list(ch.dev("lanes of " + r.name, [((2, 1),), ((2, 1), (1, 1), (2, 1)), ((2, 2),)]))
        net.number(ch)
        nets.ordering(ch, net, False)
        run(ch, P, net, 2)
    return fn


def deep(ch, P):
    """Sequences of three and four calls."""
    net = nets.through_junction(ch, tail=True, offsets=(0,)) if ch.free("shape", ["junction", "chain"]) == "junction" else nets.chain(ch, 3)
    for r in net.roads.values():
        r.secs = [(1, 1)]
    net.number(ch)
    run(ch, P, net, 3)


def trees(ch, P):
    net = nets.tree(ch, 2, geoms=False)
    for n, r in net.roads.items():
        r.secs = [(1, 1)] if r.junction else [(2, 2)]
    net.number(ch)
    run(ch, P, net, 2)


def rivals(ch, P):
    """Two roads that claim the same end of a third."""
    net = nets.rivals(ch)
    for r in net.roads.values():
        r.secs = list(ch.dev("lanes of " + r.name, [((2, 1),), ((2, 1), (1, 1), (2, 1)), ((1, 1),)]))
    net.number(ch)
    run(ch, P, net, 2, adjust=False)


def claims(ch, P):
    """Every way in which three roads can declare links to each other, mutual or not."""
    net = nets.claims(ch)
    for i, r in enumerate(net.roads.values()):
        r.secs = [(1, 1)]
    net.ids = dict(zip("ABC", (1, 2, 3)))
    net.idv = net.refv = lambda n: net.ids[n]
    run(ch, P, net, 1)


def declared(ch, P):
    """What two ordinary roads declare, end by end: kind, id and contact point, of each other, of a third road or of themselves."""
    S, C = P.ElementType, P.ContactPoint
    ids = ch.free("ids", [(1, 2), (0, 1), (11, 1)])

    def road(i):
        return P.create_road(P.Line(10), i)
    a, b = road(ids[0]), road(ids[1])
    options = [None] + [(k, w, c) for k in ("road", "junction") for w in ("the other", "itself", "a third") for c in (("start", "end") if k == "road" else (None,))]
    says = {}
    for n, r, other in (("A", a, b), ("B", b, a)):
        for side in ("predecessor", "successor"):
            o = says[n, side] = (ch.free if (n, side) in (("A", "successor"), ("B", "predecessor")) else ch.dev)("%s of %s" % (side, n), options)
            if o:
                (r.add_predecessor if side == "predecessor" else r.add_successor)(getattr(S, o[0]), {"the other": other.id, "itself": r.id, "a third": 99}[o[1]], *([getattr(C, o[2])] if o[2] else []))
    follows = lambda x, y: says[x, "successor"] == ("road", "the other", "start") and says[y, "predecessor"] == ("road", "the other", "end")
    want = {"A": [], "B": []}
    for x, y, r, s in (("A", "B", a, b), ("B", "A", b, a)):
        ch.req(bool(P.are_roads_consecutive(r, s)) == follows(x, y), "are_roads_consecutive of road %s and road %s gives %s %s", x, y, not follows(x, y), says)
        if follows(x, y):
            want[x].append("successor")
            want[y].append("predecessor")
    P.create_lane_links(*((a, b) if ch.dev("given", ["AB", "BA"]) == "AB" else (b, a)))
    ch.op()
    for n, r in (("A", a), ("B", b)):
        for lane in r.lanes.get_element().iter("lane"):
            l = lane.find("link")
            got = sorted((x.tag, x.get("id")) for x in (l if l is not None else ()))
            exp = [] if lane.get("id") == "0" else sorted((t, lane.get("id")) for t in want[n])
            ch.req(got == exp, "lane %s of road %s has links %s instead of %s %s", lane.get("id"), n, got, exp, says)
    ch.state(tuple(sorted(says.items(), key=str)))
    ch.outcome("joints %d" % len(want["A"]))


def numbers(ch, P):
    """Every number of lanes on either side of a joint."""
    net = Net([R("A", nets.GEOMS[0]), R("B", nets.GEOMS[1], junction=ch.free("B", [None, "J"]))])
    e = ch.free("end", ENDS)
    if net.roads["B"].junction:
        net.roads["B"].set(ch.free("B joins with", ENDS), ("road", "A", e, 0))
        net.roads["A"].set(e, ("junction", "J"))
    else:
        net.road_link("A", e, "B", "start" if e == "end" else "end")
    secs = [(ch.free("left lanes", list(range(13 if ch.bound else 9))), ch.free("right lanes", list(range(13 if ch.bound else 9))))]
    for r in net.roads.values():
        r.secs = secs
    if net.roads["B"].junction:
        net.roads["A"].secs = [(13, 13)]
    net.number(ch)
    run(ch, P, net, 1)


SCENARIOS = [Scenario("declared", declared, 0, 1), Scenario("numbers", numbers, 0, 1), Scenario("rivals", rivals, 0, 2), Scenario("claims", claims, 3, 6), Scenario("consecutive", consecutive, 1, 2), Scenario("through", through, 1, 2), Scenario("loop", loop, 1, 2), Scenario("dead-end", dead_end, 0, 1), Scenario("chains", chains(3), 1, 2), Scenario("chains4", chains(4), 0, 1), Scenario("deep", deep, 0, 1), Scenario("trees", trees, 0, 1)]
ASSUMPTIONS = ["connecting roads are linked to ordinary roads only", "lane offsets move lanes outwards on their side of the road"]
