"""A rejected call can be corrected and repeated as if it had never been made."""
from ..engine import Scenario, Skip
from .. import nets, ref, lanelinks
from ..nets import R, Net, ENDS
from .c12 import SHAPES, incoming


def tidy(doc):
    """The content of a document, apart from the order of lane links."""
    for l in doc.iter("link"):
        l[:] = sorted(l, key=lambda x: (x.tag, x.get("id") or "", x.get("elementId") or ""))
    return ref.dump(doc)


def finish(P, roads, conns, junction, ids):
    odr = P.OpenDrive("crossing")
    for r in roads + conns:
        odr.add_road(r)
    odr.adjust_roads_and_lanes()
    odr.add_junction(P.create_junction(conns, junction, roads))
    doc = odr.get_element()
    doc.find("header").set("date", "")
    return tidy(doc)


def crossing(ch, P):
    """Crossings that are rejected because roads do not fit or are linked already."""
    angles = ch.free("angles", SHAPES)
    k = len(angles)
    width, lanes = ch.dev("width", [3, 2.5]), ch.free("lanes", [(1, 1), (2, 2)])
    causes = [ch.free("road %d" % i, ["fits", "left lane missing", "right lane missing", "lane missing on both sides", "linked already"]) for i in range(k)]
    if all(c == "fits" for c in causes):
        raise Skip()
    sections = ch.dev("sections", [1, 2])
    args = dict(junction=ch.dev("junction", [1, 7]), startnum=ch.dev("start number", [100, 20]))
    far = [ch.dev("far side of road %d" % i, [None, "road", "junction"]) for i in range(k)]
    geom = ch.dev("geometry", nets.GEOMS[:3])
    S, C = P.ElementType, P.ContactPoint

    def road(i, lacking, linked):
        here = (lanes[0] - ("left" in lacking or "both" in lacking), lanes[1] - ("right" in lacking or "both" in lacking))
        secs = [here] if sections == 1 else [(3, 1), here] if i == 0 else [here, (3, 1)]
        r = incoming(P, i + 1, geom, secs, width)
        if linked:
            (r.add_successor if i == 0 else r.add_predecessor)(S.junction, 55)
        if far[i]:
            add = r.add_predecessor if i == 0 else r.add_successor
            add(S.junction, 66) if far[i] == "junction" else add(S.road, 77, C.start)
        return r

    def rejected(rs):
        before = [ref.dump(r.links.get_element()) + ref.dump(r.lanes.get_element()) for r in rs]
        ch.op()
        try:
            P.create_junction_roads(rs, list(angles), 10, **args)
        except (P.exceptions.NotSameAmountOfLanesError, ValueError, IndexError):
            after = [ref.dump(r.links.get_element()) + ref.dump(r.lanes.get_element()) for r in rs]
            for i, (a, b) in enumerate(zip(before, after)):
                ch.req(a == b, "the crossing of roads %s is rejected, but road %d is changed by it", causes, i)
            return True
        return False

    first = [road(i, c, c == "linked already") for i, c in enumerate(causes)]
    if lanes == (1, 1) and sum("missing" in c for c in causes) > 1:
        raise Skip()  # sides without lanes do not meet each other
    if not rejected(first):
        if all(c == causes[0] for c in causes):
            raise Skip()
        ch.req(False, "roads %s are accepted", causes)
    how = ch.free("corrected", ["all at once", "one by one, from the first", "one by one, from the last"])
    rs = list(first)
    todo = [i for i, c in enumerate(causes) if c != "fits"]
    if how.endswith("last"):
        todo.reverse()
    n = 1
    for j, i in enumerate(todo):
        if causes[i] == "linked already":
            rs[i] = road(i, "", False)
        else:
            sec = rs[i].lanes.lanesections[-1 if i == 0 else 0]
            if "left" in causes[i] or "both" in causes[i]:
                sec.add_left_lane(P.Lane(a=width))
            if "right" in causes[i] or "both" in causes[i]:
                sec.add_right_lane(P.Lane(a=width))
        if how != "all at once" and j < len(todo) - 1:
            ch.req(rejected(rs), "roads %s, of which the roads %s are corrected, are accepted", causes, todo[:j + 1])
            n += 1
    conns = P.create_junction_roads(rs, list(angles), 10, **args)
    ch.op()
    fresh = [road(i, "", False) for i in range(k)]
    want = P.create_junction_roads(fresh, list(angles), 10, **args)
    for x, y in zip(rs, fresh):
        ch.req(ref.dump(x.links.get_element()) == ref.dump(y.links.get_element()), "road %s has other links after %d rejected calls (%s) than without", x.id, n, causes)
    a, b = (tuple((str(c.id), ref.dump(c.links.get_element()), ref.dump(c.lanes.get_element())) for c in cs) for cs in (conns, want))
    ch.req(a == b, "the connecting roads after %d rejected calls (%s) differ from those without", n, causes)
    if not any(far):
        got, exp = finish(P, rs, conns, args["junction"], None), finish(P, fresh, want, args["junction"], None)
        ch.req(got == exp, "the crossing after %d rejected calls (%s) differs from the one without", n, causes)
        ch.state(got)
    ch.outcome("rejected %d times" % n)


def outcome(P, a, b):
    try:
        P.create_lane_links(a, b)
    except P.exceptions.NotSameAmountOfLanesError:
        return "rejected"
    return "linked"


def by_hand(ch, P):
    """create_lane_links for roads whose lanes do not fit, and again with the lanes supplied."""
    shape = ch.free("shape", ["chain", "ring", "junction", "loop"])
    if shape == "chain":
        net = Net([R(x, nets.GEOMS[0]) for x in "AB"])
        net.road_link("A", "end", "B", "start")
    elif shape == "ring":
        net = Net([R(x, nets.GEOMS[0]) for x in "AB"])
        net.road_link("A", "end", "B", "start")
        net.road_link("B", "end", "A", "start")
    else:
        net = Net([R("A", nets.GEOMS[0]), R("B", nets.GEOMS[1], junction="J")])
        ends = ch.free("B from", ENDS), ch.free("B to", ENDS)
        if shape == "loop":
            net.connect("B", "A", ends[0], "A", ends[1])
        else:
            e = ch.free("B joins with", ENDS)
            net.roads["B"].set(e, ("road", "A", ends[0], 0))
            net.roads["A"].set(ends[0], ("junction", "J"))
    nl, nr = ch.free("lanes", [(2, 1), (1, 2), (2, 2)])
    two = ch.free("sections of A", [1, 2])
    net.roads["A"].secs = [(nl, nr)] * two
    net.roads["B"].secs = [(nl, nr)] * ch.free("sections of B", [1, 2])
    if shape in ("junction", "loop"):
        net.roads["A"].secs = [(2, 2)] * two
    net.number(ch, styles=("int", "text"))
    lacking = ch.free("lacking", [(x, i, s) for x in "AB" for i in range(len(net.roads[x].secs)) for s in ("left", "right", "both")])
    times, order = ch.free("tried", [1, 2]), ch.free("given", ["AB", "BA"])

    def build(lack):
        keep = {n: list(r.secs) for n, r in net.roads.items()}
        if lack:
            x, i, s = lack
            a, b = net.roads[x].secs[i]
            net.roads[x].secs[i] = (a - (s != "right"), b - (s != "left"))
        roads = {n: net.road(P, n) for n in net.roads}
        for n, r in net.roads.items():
            r.secs = keep[n]
        return roads

    roads, fresh = build(lacking), build(None)
    # only the outer lane of a side can be supplied later
    got = [outcome(P, roads[order[0]], roads[order[1]]) for _ in range(times)]
    ch.req(len(set(got)) == 1, "the same call is %s [%s; lacking %s]", got, net.show(), lacking)
    x, i, s = lacking
    sec = roads[x].lanes.lanesections[i]
    if s != "right":
        sec.add_left_lane(P.Lane(a=3))
    if s != "left":
        sec.add_right_lane(P.Lane(a=3))
    again = outcome(P, roads[order[0]], roads[order[1]])
    ch.op(times + 2)
    want = outcome(P, fresh[order[0]], fresh[order[1]])
    ch.req(again == want == "linked", "after the lanes %s are supplied the call is %s (%s without the earlier one) [%s]", lacking, again, want, net.show())
    if got[0] == "linked" and shape in ("junction", "loop"):
        ch.outcome("linked at once")
    for n in roads:
        a, b = tidy(roads[n].lanes.get_element()), tidy(fresh[n].lanes.get_element())
        ch.req(a == b, "the lanes of road %s after %s and supplying %s differ from those of complete roads linked once [%s]", n, got, lacking, net.show())
        ch.state(a)
    ch.outcome(got[0])


def roadside(ch, P):
    """Roadside objects and links that are rejected, in any sequence with those that are not."""
    def road():
        r = P.create_road([P.Line(40), P.Arc(0.05, angle=0.5)], 1, left_lanes=1, right_lanes=2)
        odr = P.OpenDrive("one")
        odr.add_road(r)
        return odr, r
    (odr, r), (odr2, r2) = road(), road()
    proto, proto2 = (P.Object(0, 1.5, id="p", Type=P.ObjectType.pole, height=2) for _ in range(2))
    side = getattr(P.RoadSide, ch.free("side", ["both", "left", "right"]))
    steps = ["roadside", "adjust", "successor", "predecessor", "neighbour", "neighbour without direction"]
    adjusted, counts = False, {"successor": 0, "predecessor": 0, "neighbour": 0}
    S = P.ElementType
    seq = [ch.free("step %d" % i, steps) for i in range(ch.free("steps", [1, 2, 3, 4]))]
    for i, s in enumerate(seq):
        v = "%d" % (10 + i)
        call = {"roadside": lambda o, x, p: x.add_object_roadside(p, 7, sOffset=1, tOffset=0.5, side=side), "adjust": lambda o, x, p: o.adjust_roads_and_lanes(),
                "successor": lambda o, x, p: x.add_successor(S.junction, v), "predecessor": lambda o, x, p: x.add_predecessor(S.junction, v),
                "neighbour": lambda o, x, p: x.add_neighbor(S.road, v, P.Direction.same), "neighbour without direction": lambda o, x, p: x.add_neighbor(S.road, v, None)}[s]
        ok = adjusted if s == "roadside" else True if s == "adjust" else False if s.endswith("direction") else counts[s] < (2 if s == "neighbour" else 1)
        try:
            call(odr, r, proto)
            done = True
        except (P.exceptions.RoadsAndLanesNotAdjusted, ValueError) as e:
            done = False
        ch.op()
        ch.req(done == ok, "step %d of %s is %s", i + 1, seq, "accepted" if done else "rejected")
        if done:
            call(odr2, r2, proto2)
            adjusted |= s == "adjust"
            if s in counts:
                counts[s] += 1
    if not adjusted:
        odr.adjust_roads_and_lanes()
        odr2.adjust_roads_and_lanes()
    a, b = r.get_element(), r2.get_element()
    for e in (a, b):
        for o in e.iter("object"):
            o.set("id", "")
    ch.req(ref.dump(a) == ref.dump(b), "the road after %s differs from the one without the rejected steps", seq)
    ch.req(ref.dump(proto.get_element()) == ref.dump(proto2.get_element()), "the object handed over after %s differs from the one without the rejected steps", seq)
    ch.state(ref.dump(a))


def displaced(ch, P):
    """Rejected declarations with a lane offset of their own, on connecting and on ordinary roads."""
    ends = ["predecessor", "successor"]
    offs = {e: ch.free("offset of the " + e, [None, 0, 1, -1]) for e in ends}
    if all(o is None for o in offs.values()):
        raise Skip()
    extra = [(ch.free("rejected %d" % i, [e for e in ends if offs[e] is not None]), ch.free("with offset %d" % i, [None, 0, 1, -1])) for i in range(ch.free("rejections", [1, 2]))]
    kind = ch.free("kind", ["junction", "road"])
    when = ch.free("when", ["at once", "after adding", "after adjusting"])
    geom = ch.dev("geometry", nets.GEOMS[:3])
    S, C = P.ElementType, P.ContactPoint

    def build(rejected):
        rs = {"predecessor": incoming(P, 1, nets.GEOMS[0], [(3, 3)], 3), "successor": incoming(P, 2, nets.GEOMS[0], [(3, 3)], 3)}
        c = incoming(P, 3, geom, [(2, 2)], 3, junction=9) if kind == "junction" else incoming(P, 3, geom, [(3, 3)], 3)

        def declare(e, o):
            kw = {} if o is None else dict(lane_offset=o)
            (c.add_predecessor if e == "predecessor" else c.add_successor)(S.road, 1 if e == "predecessor" else 2, C.end if e == "predecessor" else C.start, **kw)

        def reject():
            for e, o in extra if rejected else ():
                try:
                    declare(e, o)
                except ValueError:
                    ch.op()
                    continue
                ch.req(False, "a second %s is accepted", e)
        for e in ends:
            if offs[e] is not None:
                declare(e, offs[e])
                if kind == "junction":
                    (rs[e].add_successor if e == "predecessor" else rs[e].add_predecessor)(S.junction, 9)
                elif e == "predecessor":
                    rs[e].add_successor(S.road, 3, C.start)
                else:
                    rs[e].add_predecessor(S.road, 3, C.end)
        if when == "at once":
            reject()
        odr = P.OpenDrive("x")
        for r in [c] + [rs[e] for e in ends if offs[e] is not None]:
            odr.add_road(r)
        if when == "after adding":
            reject()
        odr.adjust_roads_and_lanes()
        if when == "after adjusting":
            reject()
        if kind == "junction":
            odr.add_junction(P.create_junction([c], 9, [rs[e] for e in ends if offs[e] is not None])) if None not in offs.values() else None
        doc = odr.get_element()
        doc.find("header").set("date", "")
        return tidy(doc)
    got, want = build(True), build(False)
    ch.req(got == want, "a %s with the declared lane offsets %s differs after the rejected declarations %s %s", kind, offs, extra, when)
    ch.state(got)
    ch.outcome(when)


SCENARIOS = [Scenario("crossing", crossing, 0, 1), Scenario("by-hand", by_hand, 1, 1), Scenario("sequences", roadside), Scenario("offsets", displaced, 0, 1)]
ASSUMPTIONS = ["rejections are corrected by supplying what was missing or another road, as nothing can be taken away"]
