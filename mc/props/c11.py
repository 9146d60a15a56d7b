"""A created junction describes exactly the joints of its connecting roads."""
from ..engine import Scenario
from .. import nets, lanelinks
from ..nets import R, Net, ENDS

SECS = [((1, 1),), ((2, 1),), ((1, 2),), ((0, 2),), ((2, 0),), ((2, 1), (1, 2)), ((1, 1), (3, 3), (1, 2))]


def expected(net, order):
    """[(incoming, connecting, contact point, {(from, to)})]"""
    out = []
    for n in order:
        c = net.roads[n]
        for end in ("end", "start"):
            _, name, contact, off = c.at(end)
            nl, nr = lanelinks.count(c, end)
            links = set()
            for i in list(range(1, nl + 1)) + list(range(-1, -nr - 1, -1)):
                t = i + off
                links.add((str(-t if contact == end else t), str(i)))
            out.append((str(net.ids[name]), str(net.ids[n]), end, links))
    return out


def run(ch, P, net, conns, jid, incoming):
    roads = {n: net.road(P, n) for n in net.roads}
    junction = P.create_junction([roads[n] for n in conns], jid, [roads[n] for n in incoming])
    e = junction.get_element()
    ch.op(len(roads) + 2)
    ch.req(e.tag == "junction" and e.get("id") == str(jid), "junction %s written as %s", jid, e.attrib)
    got = []
    for c in e:
        ch.req(c.tag == "connection", "unexpected %s in the junction", c.tag)
        links = [(l.get("from"), l.get("to")) for l in c]
        ch.req(len(links) == len(set(links)), "lane links %s repeat", links)
        got.append((c.get("incomingRoad"), c.get("connectingRoad"), c.get("contactPoint"), set(links)))
    key = lambda x: (x[0], x[1], x[2])
    ch.state(sorted((k[:3], sorted(k[3])) for k in got))
    want = expected(net, conns)
    where = "[%s; lanes %s; ids %s]" % (net.show(), {n: r.secs for n, r in net.roads.items()}, net.ids)
    ch.req(sorted(map(key, got)) == sorted(map(key, want)), "connections %s instead of %s %s", sorted(map(key, got)), sorted(map(key, want)), where)
    for g, w in zip(sorted(got, key=key), sorted(want, key=key)):
        ch.req(g[3] == w[3], "connection of road %s with connecting road %s at its %s has lane links %s instead of %s %s", g[0], g[1], g[2], sorted(g[3]), sorted(w[3]), where)
    ids = [c.get("id") for c in e]
    ch.req(len(set(ids)) == len(ids), "connection ids %s repeat", ids)
    for n, r in roads.items():  # and nothing happens to the roads
        ch.req(all(l.find("link") is None or len(l.find("link")) == 0 for l in r.lanes.get_element().iter("lane")), "creating the junction links lanes of road %s", n)


def finish(ch, P, net, number=True):
    if number:
        net.number(ch)
    conns = ch.perm("junction roads", [n for n, r in net.roads.items() if r.junction]) if len(net.roads) < 6 else [n for n, r in net.roads.items() if r.junction]
    inc = [n for n, r in net.roads.items() if r.junction is None]
    how = ch.dev("roads given", ["in order", "reversed", "all"])
    inc = inc[::-1] if how == "reversed" else inc + conns if how == "all" else inc
    jid = ch.dev("junction id", [1, 0, "5", 77])
    if ch.dev("adjusted before", [False, True]):  # the same network may have been used elsewhere meanwhile
        try:
            net.build(P)[0].adjust_roads_and_lanes()
        except (P.exceptions.NotSameAmountOfLanesError, P.exceptions.UndefinedRoadNetwork):
            pass
    run(ch, P, net, conns, jid, inc)


def counts(ch, P):
    net = Net([R(x, nets.GEOMS[0], junction="J" if x == "C" else None) for x in "ACB"])
    net.connect("C", "A", ch.free("start joins", ENDS), "B", ch.free("end joins", ENDS), 0, 0)
    for r in net.roads.values():
        r.secs = list(ch.free("lanes of " + r.name, SECS)) if r.name == "C" else list(ch.dev("lanes of " + r.name, [((3, 3),)] + SECS))
    finish(ch, P, net)


def offsets(ch, P):
    net = Net([R(x, nets.GEOMS[0], junction="J" if x == "C" else None) for x in "ACB"])
    s = 1 if ch.free("side", ["left", "right"]) == "left" else -1
    o1, o2 = (s * ch.free("offset at " + e, [0, 1, 2, 3]) for e in ENDS)
    net.connect("C", "A", ch.free("start joins", ENDS), "B", ch.free("end joins", ENDS), o1, o2)
    n = ch.free("lanes", [1, 2, 3])
    net.roads["C"].secs = [(n, 0) if s > 0 else (0, n)] * ch.free("sections", [1, 2])
    for x in "AB":
        net.roads[x].secs = [(6, 6)]
    finish(ch, P, net)


def loops(ch, P):
    pe, se = ch.free("loop", ["end to end", "start to start", "end to start", "start to end"]).split(" to ")
    net = Net([R("A", nets.GEOMS[0]), R("C", nets.GEOMS[1], junction="J")])
    net.connect("C", "A", pe, "A", se)
    net.roads["A"].secs = [(3, 3)]
    net.roads["C"].secs = list(ch.free("lanes of C", SECS))
    finish(ch, P, net)


def several(ch, P):
    net = nets.hub(ch, 2, offsets=(0,))
    for n, r in net.roads.items():
        r.secs = list(ch.free("lanes of " + n, [((1, 1),), ((0, 1),), ((2, 1), (1, 2))])) if n[0] == "C" else [(3, 3)]
    finish(ch, P, net)


def hub3(ch, P):
    net = nets.hub(ch, 3, offsets=(0, ))
    finish(ch, P, net)


def crossing(ch, P):
    net = nets.crossing(ch, ch.free("roads", [3, 4]))
    base = ch.free("lanes", [(1, 1), (2, 2)])
    for n, r in net.roads.items():
        r.secs = [base] if len(n) == 2 else list(ch.dev("lanes of " + n, [(base,), (base, (3, 3), base)]))
    finish(ch, P, net)


def wide(ch, P):
    """Many lanes, lane sections and lane offsets."""
    net = Net([R(x, nets.GEOMS[0], junction="J" if x == "C" else None) for x in "ACB"])
    n = ch.free("lanes", [3, 6, 9, 10, 11, 20])
    shift = ch.free("lane offset", [0, 4, 9, -4, -9])
    o1, o2 = ch.free("offset at", [(shift, 0), (0, shift), (shift, shift)])
    net.connect("C", "A", ch.free("start joins", ENDS), "B", ch.free("end joins", ENDS), o1, o2)
    c = {0: (n, n), 1: (n, 0), -1: (0, n)}[(shift > 0) - (shift < 0)]
    k = ch.free("sections", [1, 2, 5, 12])
    net.roads["C"].secs = ([c] + [((1, 1), (2, 0))[i % 2] for i in range(k - 2)] + [c])[:k]
    for x in "AB":
        net.roads[x].secs = [(40, 40)]
    finish(ch, P, net)


def numbers(ch, P):
    """Every number of lanes on either side."""
    net = Net([R(x, nets.GEOMS[0], junction="J" if x == "C" else None) for x in "ACB"])
    net.connect("C", "A", ch.free("start joins", ENDS), "B", ch.free("end joins", ENDS), 0, 0)
    net.roads["C"].secs = [(ch.free("left lanes", list(range(13 if ch.bound else 9))), ch.free("right lanes", list(range(13 if ch.bound else 9))))]
    for x in "AB":
        net.roads[x].secs = [(13, 13)]
    net.number(ch)
    run(ch, P, net, ["C"], 1, ["A", "B"])


def none(ch, P):
    """No connecting roads, no connections."""
    net = Net([R(x, nets.GEOMS[0]) for x in "AB"])
    net.number(ch)
    run(ch, P, net, [], ch.free("junction id", [1, 0, "5", 77]), list(net.roads))


def trees(steps):
    """All networks without rings of that many roads; connecting roads of one junction or of all."""
    def fn(ch, P):
        net = nets.tree(ch, steps, offsets=(0, 1, -1), geoms=False)
        conns = [n for n, r in net.roads.items() if r.junction]
        if not conns:
            from ..engine import Skip
            raise Skip()
        for n in net.roads:
            net.roads[n].secs = list(ch.dev("lanes of " + n, [((1, 1),), ((0, 1), (1, 0)), ((2, 1),)])) if n in conns else [(4, 4)]
        finish(ch, P, net)
    return fn


SCENARIOS = [Scenario("trees", trees(2), 1, 2), Scenario("trees3", trees(3), 0, 1), Scenario("counts", counts, 2, 3), Scenario("offsets", offsets, 1, 2), Scenario("loops", loops, 2, 3), Scenario("several", several, 1, 2), Scenario("hub3", hub3, 1, 2), Scenario("numbers", numbers, 0, 1), Scenario("crossing", crossing, 1, 2),
             Scenario("wide", wide, 0, 1), Scenario("none", none)]
ASSUMPTIONS = ["lane offsets move lanes outwards on their side of the road (no lane is shifted across the centre)"]
