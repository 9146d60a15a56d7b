"""Generated crossings close geometrically and match their roads."""
import itertools
from ..engine import Scenario, Skip, Violation
from .. import nets, ref
from ..ref import PI

SHAPES = [(0, PI / 2, PI, 3 * PI / 2), (0, PI / 2, PI), (0, PI / 2, 3 * PI / 2), (0, PI, 3 * PI / 2), (0, 2 * PI / 3, 4 * PI / 3)]
PARTS = [(1 / 3, 1 / 3), (1 / 4, 1 / 2), (0.45, 0.1), (0.05, 0.9), (0.2, 0.6), (1 / 6, 2 / 3)]
SECS = [((1, 1),), ((2, 2),), ((3, 3), (1, 1)), ((1, 1), (2, 2)), ((2, 2), (1, 1), (3, 3))]


def incoming(P, rid, specs, secs, width, widths=None, junction=-1):
    pv = P.PlanView()
    for s in specs:
        pv.add_geometry(ref.build(P, s))
    ls = P.Lanes()
    total = sum(ref.local(s)[1] for s in specs)
    for k, (nl, nr) in enumerate(secs):
        w = width if widths is None else widths[k]
        sec = P.LaneSection(k * total / len(secs), P.Lane())
        for _ in range(nl):
            sec.add_left_lane(P.Lane(a=w))
        for _ in range(nr):
            sec.add_right_lane(P.Lane(a=w))
        ls.add_lanesection(sec)
    return P.Road(rid, pv, ls, road_type=junction)


def judge(ch, P, angles, roads, n_lanes, width, conns, start, junction, order):
    k = len(roads)
    ch.req(len(conns) == k * (k - 1) // 2, "%d connecting roads for %d roads", len(conns), k)
    ch.req(sorted(int(c.id) for c in conns) == list(range(start, start + len(conns))), "connecting roads are numbered %s instead of from %d", [c.id for c in conns], start)
    odr = P.OpenDrive("crossing")
    everything = roads + conns
    for i in order(len(everything)):
        odr.add_road(everything[i])
    odr.adjust_roads_and_lanes()
    ch.op(len(everything) + 1)
    inspect(ch, odr.get_element(), angles, roads, n_lanes, width, conns, junction)


def inspect(ch, doc, angles, roads, n_lanes, width, conns, junction, far={}):
    """far: road id -> the link at the side that does not belong to this crossing"""
    ids = [r.id for r in roads]
    els = ref.road_elems(doc)
    ends = {n: ref.ends(e) for n, e in els.items()}
    size = max(max(abs(v) for p in ps for v in p[:2]) for ps in ends.values())
    ch.state(sorted((n, ref.show(a), ref.show(b)) for n, (a, b) in ends.items()))
    pairs = []
    for c in conns:
        e = els[str(c.id)]
        ch.req(e.get("junction") == str(junction), "connecting road %s is in junction %s instead of %s", c.id, e.get("junction"), junction)
        found = []
        for tag, idx in (("predecessor", 0), ("successor", 1)):
            ls = e.findall("link/" + tag)
            ch.req(len(ls) == 1 and ls[0].get("elementType") == "road", "connecting road %s has %s %s", c.id, tag, [dict(l.attrib) for l in ls])
            rid, cp = ls[0].get("elementId"), ls[0].get("contactPoint")
            ch.req(rid in map(str, ids), "connecting road %s leads to road %s", c.id, rid)
            want = "end" if rid == str(ids[0]) else "start"
            ch.req(cp == want, "connecting road %s joins the %s of road %s instead of its %s", c.id, cp, rid, want)
            there = ends[rid][1 if cp == "end" else 0]
            here = ends[str(c.id)][idx]
            if (cp == "end") == (idx == 1):
                there = ref.rev(there)
            ch.req(ref.same_pose(here, there, size, 1e-7, 1e-7), "%s of connecting road %s at %s, but %s of road %s at %s", tag, c.id, ref.show(here), cp, rid, ref.show(there))
            found.append(rid)
        pairs.append(frozenset(found))
        secs = e.findall("lanes/laneSection")
        ch.req(len(secs) == 1, "%d lane sections in a connecting road", len(secs))
        for side in ("left", "right"):
            lanes = secs[0].findall(side + "/lane")
            ch.req(len(lanes) == n_lanes, "connecting road %s has %d %s lanes instead of %d", c.id, len(lanes), side, n_lanes)
            ch.req(all(float(l.find("width").get("a")) == width for l in lanes), "connecting road %s has %s lanes of width %s instead of %s", c.id, side,
                   [l.find("width").get("a") for l in lanes], width)
    ch.req(sorted(map(sorted, pairs)) == sorted(sorted(map(str, p)) for p in itertools.combinations(ids, 2)), "connecting roads join %s", sorted(map(sorted, pairs)))
    out = ref.rev(ends[str(ids[0])][1])[2]
    for a, rid in zip(angles, ids):
        i = 0 if rid == ids[0] else 1
        p = ends[str(rid)][1 - i]
        h = p[2] + PI if i == 0 else p[2]
        ch.req(ref.adiff(h - out, a - angles[0]) < 1e-6, "road %s leaves at %.9g instead of %.9g", rid, (h - out) % (2 * PI), a - angles[0])
        tag, other = ("successor", "predecessor") if i == 0 else ("predecessor", "successor")
        ls = els[str(rid)].findall("link/" + tag)
        ch.req(len(ls) == 1 and ls[0].get("elementType") == "junction" and ls[0].get("elementId") == str(junction), "road %s has %s %s", rid, tag, [dict(l.attrib) for l in ls])
        got = [tuple(l.get(a) for a in ("elementType", "elementId", "contactPoint")) for l in els[str(rid)].findall("link/" + other)]
        ch.req(got == ([far[rid]] if rid in far else []), "road %s has the %s %s instead of %s", rid, other, got, far.get(rid))


def names(ch, k):
    style = ch.dev("ids", ["from 0", "from 1", "text", "large", "down"])
    return {"from 0": list(range(k)), "from 1": list(range(1, k + 1)), "text": [str(i + 1) for i in range(k)], "large": [1000 + 7 * i for i in range(k)], "down": list(range(k, 0, -1))}[style]


def crossing(ch, P):
    angles = ch.free("angles", SHAPES)
    r = ch.free("radius", [8, 20.0, 1, 100, 55.5])
    parts = ch.free("parts", PARTS)
    turned = ch.free("first angle", [0, 0.1, -PI / 2, 1.7])
    angles = tuple(a + turned for a in angles)
    secs = ch.dev("lanes", SECS[:2] + [((3, 3),)])
    width = ch.dev("width", [3, 2.5, 4])
    ids = names(ch, len(angles))
    start, junction = ch.dev("start number", [100, 50, 7, 1000, 0]), ch.dev("junction", [1, 99, 3, 0])
    if start == 0:  # ids of roads are distinct
        ids = [type(i)(int(i) + 30) for i in ids]
    specs = [ch.dev("road geometry", nets.GEOMS) for _ in angles]
    roads = [incoming(P, i, s, secs, width) for i, s in zip(ids, specs)]
    kw = {}
    if start != 100 or ch.dev("explicit", [False, True]):
        kw = dict(startnum=start, junction=junction)
    elif junction != 1:
        kw = dict(junction=junction)
    if parts != (1 / 3, 1 / 3):
        kw.update(spiral_part=parts[0], arc_part=parts[1])
    conns = P.create_junction_roads(roads, list(angles), r, **kw)
    how = ch.dev("added", ["roads first", "connecting roads first", "reversed", "mixed"])
    order = {"roads first": lambda n: list(range(n)), "connecting roads first": lambda n: list(range(len(roads), n)) + list(range(len(roads))),
             "reversed": lambda n: list(range(n))[::-1], "mixed": lambda n: list(range(0, n, 2)) + list(range(1, n, 2))}[how]
    ch.outcome("%d roads" % len(roads))
    judge(ch, P, angles, roads, secs[0][0], width, conns, start, junction, order)


def sections(ch, P):
    """The junction-side lane sections count: the last of the first road, the first of the others."""
    angles = ch.free("angles", [SHAPES[1], SHAPES[4], SHAPES[0]])
    secs = [ch.free("lanes of road %d" % i, SECS) if i < 3 else SECS[3] for i in range(len(angles))]
    sides = [s[-1] if i == 0 else s[0] for i, s in enumerate(secs)]
    widths = ch.free("widths", [(3, 3, 3), (3, 2.5, 3.5)])
    roads = []
    want_w = ch.free("junction width", [3, 3.5])
    for i, s in enumerate(secs):
        w = list(widths[:len(s)])
        w[-1 if i == 0 else 0] = want_w
        roads.append(incoming(P, i + 1, nets.GEOMS[0], s, 3, w))
    fits = len(set(sides)) == 1
    ch.op()
    try:
        conns = P.create_junction_roads(roads, list(angles), 10)
    except P.exceptions.NotSameAmountOfLanesError:
        if fits:
            raise Violation("rejected although all roads have %s lanes at the junction (%s)" % (sides[0], secs))
        ch.outcome("rejected")
        ch.state(("rejected", secs))
        return
    if not fits:
        raise Violation("accepted although the roads have %s lanes at the junction" % sides)
    ch.outcome("accepted")
    judge(ch, P, angles, roads, sides[0][0], want_w, conns, 100, 1, lambda n: list(range(n)))


def uneven(ch, P):
    """Roads that differ from the others on one side only."""
    angles = ch.free("angles", SHAPES)
    base, other = ch.free("lanes", [((1, 1), (1, 2)), ((1, 1), (2, 1)), ((2, 2), (2, 1)), ((2, 2), (1, 2)), ((3, 3), (3, 1)), ((1, 1), (0, 1)), ((1, 1), (1, 0)), ((2, 2), (3, 1)), ((2, 2), (1, 3))])
    who = [ch.free("road %d" % i, ["like the others", "different"]) for i in range(len(angles))]
    if set(who) == {"different"} or 0 in other and who.count("different") > 1:  # sides without lanes do not meet each other
        raise Skip()
    first = ch.dev("far side", [False, True])
    roads = []
    for i, w in enumerate(who):
        here = base if w == "like the others" else other
        secs = [here] if not first else [base, here] if i == 0 else [here, base]
        roads.append(incoming(P, i + 1, nets.GEOMS[0], secs, 3))
    ch.op()
    try:
        conns = P.create_junction_roads(roads, list(angles), 10)
    except P.exceptions.NotSameAmountOfLanesError:
        ch.req("different" in who, "rejected although all roads have %s lanes at the junction", base)
        ch.outcome("rejected")
        ch.state(("rejected", who, base, other))
        return
    ch.req("different" not in who, "accepted although the roads have %s lanes at the junction", [base if w == "like the others" else other for w in who])
    ch.outcome("accepted")
    judge(ch, P, angles, roads, base[0], 3, conns, 100, 1, lambda n: list(range(n)))


def town(ch, P):
    """Two crossings that share a road, with roads that continue at their far sides."""
    one, two = ch.free("first angles", [SHAPES[0], SHAPES[1], SHAPES[4]]), ch.free("second angles", [SHAPES[0], SHAPES[4], SHAPES[2]])
    via = ch.free("shared road", range(1, len(one)))
    first = [incoming(P, i + 1, nets.GEOMS[0], [(1, 1)], 3) for i in range(len(one))]
    rest = [incoming(P, 11 + i, nets.GEOMS[1], [(1, 1)], 3) for i in range(len(two) - 1)]
    second = [first[via]] + rest
    tails, far = [], {first[via].id: None}
    S, C = P.ElementType, P.ContactPoint
    for r, end in [(first[0], "start")] + [(r, "end") for r in first[1:] + rest if r is not first[via]]:
        if ch.dev("road %s" % r.id, ["ends", "continues"]) == "continues":
            t = incoming(P, r.id + 40, nets.GEOMS[2], [(1, 1)], 3)
            if end == "start":
                r.add_predecessor(S.road, t.id, C.end)
                t.add_successor(S.road, r.id, C.start)
            else:
                r.add_successor(S.road, t.id, C.start)
                t.add_predecessor(S.road, r.id, C.end)
            tails.append(t)
            far[r.id] = ("road", str(t.id), "end" if end == "start" else "start")
    when = ch.free("first crossing", ["first", "second"])
    make = {1: lambda: P.create_junction_roads(first, list(one), 10, junction=1, startnum=100), 2: lambda: P.create_junction_roads(second, list(two), 8, junction=2, startnum=200)}
    conns = {k: make[k]() for k in ((1, 2) if when == "first" else (2, 1))}
    odr = P.OpenDrive("town")
    everything = first + rest + tails + conns[1] + conns[2]
    how = ch.free("added", ["in order", "reversed", "mixed"])
    if how != "in order":
        everything = everything[::-1] if how == "reversed" else everything[::2] + everything[1::2]
    for r in everything:
        odr.add_road(r)
    odr.adjust_roads_and_lanes()
    for k, rs in ((1, first), (2, second)):
        odr.add_junction(P.create_junction(conns[k], k, rs))
    ch.op(len(everything) + 5)
    doc = odr.get_element()
    v = first[via].id
    inspect(ch, doc, one, first, 1, 3, conns[1], 1, {**{k: f for k, f in far.items() if f}, v: ("junction", "2", None)})
    inspect(ch, doc, two, second, 1, 3, conns[2], 2, {**{k: f for k, f in far.items() if f}, v: ("junction", "1", None)})
    els = ref.road_elems(doc)
    for t in tails:
        r = str(t.id - 40)
        a, b = (ref.ends(els[str(t.id)])[1], ref.ends(els[r])[0]) if t.successor else (ref.ends(els[str(t.id)])[0], ref.ends(els[r])[1])
        ch.req(ref.same_pose(a, b, 300, 1e-7, 1e-7), "road %s continues road %s, but they are at %s and %s", t.id, r, ref.show(a), ref.show(b))


SCENARIOS = [Scenario("uneven", uneven, 1, 1), Scenario("town", town, 1, 3), Scenario("sections", sections, 1, 1), Scenario("crossing", crossing, 1, 2)]
ASSUMPTIONS = ["the roads at a generated crossing have as many left as right lanes, at least one, of one width there (hypothesis documented by get_lanes_offset)",
               "angles are given in ascending order within one turn, as documented"]
