"""Roadside objects stand beside the road they are added to."""
from ..engine import Scenario, Violation
from .. import ref, nets
from ..ref import PI

# lane sections: (start as part of the road length, widths left, widths right)
MAKEUPS = [
    [(0, [3], [3])], [(0, [3, 2.5], [4])], [(0, [], [3.5, 1])], [(0, [3.25], [])], [(0, [], [])],
    [(0, [3, 0, 2], [0, 4])], [(0, [0], [3, 0, 0.5, 0])], [(0, [1, 2, 3, 4, 5], [0.25] * 9)],
    [(0, [3], [3, 3]), (0.5, [2, 2, 2], [1])], [(0, [1], [2]), (0.25, [3], []), (0.6, [], [4])], [(0, [3], [3]), (0.9, [3, 3], [3, 3])],
]
GEOMS = [(("line", 100.0),), (("arcA", 0.02, 1.0),), (("line", 10), ("arcL", -0.04, 30), ("spA", 0, 0.03, 0.4)), (("polyN", (0, 20, 5, -2, 0, 0, 8, -3)),)]
PROTOS = [
    {}, {"height": 1.5}, {"Type": "pole", "name": "pole"}, {"id": 5}, {"id": "sign"}, {"zOffset": 2.5}, {"pitch": 0.1, "roll": -0.2}, {"radius": 0.4},
    {"width": 2, "length": 3}, {"orientation": "negative"}, {"dynamic": "yes"}, {"subtype": "x"}, {"validLength": 7}, {"hdg": 1}, {"height": 0},
    {"name": "n", "Type": "tree", "id": 9, "height": 4, "radius": 1, "zOffset": -1, "dynamic": "yes", "orientation": "positive", "validLength": 2},
]


def proto(P, kw, s=0, t=0, repeats=0):
    args = dict(kw)
    for k, e in (("Type", P.ObjectType), ("orientation", P.Orientation), ("dynamic", P.Dynamic)):
        if k in args:
            args[k] = getattr(e, args[k])
    o = P.Object(s, t, **args)
    for k in range(repeats):
        o.repeat(3 + k, 1)
    return o


TYPES = ["driving", "sidewalk", "none", "shoulder", "border", "parking", "HOV"]


def build(P, specs, makeup, rid=1, pose=None, types=("driving",)):
    pv = P.PlanView(*pose) if pose else P.PlanView()
    for s in specs:
        pv.add_geometry(ref.build(P, s))
    L = sum(ref.local(s)[1] for s in specs)
    ls = P.Lanes()
    every = [getattr(P.LaneType, t) for t in types if hasattr(P.LaneType, t)]
    made = []

    def lane(w):
        made.append(w)
        return P.Lane(every[(len(made) - 1) % len(every)], a=w)
    for at, left, right in makeup:
        sec = P.LaneSection(at * L, P.Lane(a=0))
        for w in left:
            sec.add_left_lane(lane(w))
        for w in right:
            sec.add_right_lane(lane(w))
        ls.add_lanesection(sec)
    return P.Road(rid, pv, ls), L


def objects(road):
    return list(road.get_element().iterfind("objects/object"))


def add(ch, P, road, o, distance, s, t, side):
    kw = {}
    if s is not None:
        kw["sOffset"] = s
    if t is not None:
        kw["tOffset"] = t
    if side is not None:
        kw["side"] = getattr(P.RoadSide, side)
    ch.op()
    road.add_object_roadside(o, distance, **kw)


def judge(ch, before, after, pattern, makeup, L, distance, s, t, side, own_id_free=True):
    """pattern: the prototype's element"""
    s, t, side = s or 0, t or 0, side or "both"
    ch.req([ref.dump(x) for x in after[:len(before)]] == [ref.dump(x) for x in before], "objects added earlier change")
    got = after[len(before):]
    want = []
    for k, (at, left, right) in enumerate(makeup):
        start = at * L + s
        end = makeup[k + 1][0] * L if k + 1 < len(makeup) else L
        if start > end:
            continue
        for sd, ws in (("left", left), ("right", right)):
            if side in ("both", sd):
                want.append((start, (sum(ws) + t) * (1 if sd == "left" else -1), PI if sd == "left" else 0.0, end - start))
    tol = 2e-4 * (1 + L)  # normalised polynomials are measured numerically
    ch.req(len(got) == len(want), "%d objects added instead of %d", len(got), len(want))
    key = lambda x: (round(x[0], 2), -x[1])
    got = sorted(got, key=lambda e: key((float(e.get("s")), float(e.get("t")))))
    for e, (ws, wt, wh, wl) in zip(got, sorted(want, key=key)):
        where = "the object beside the road at s=%.6g t=%.6g" % (ws, wt)
        ch.req(abs(float(e.get("s")) - ws) <= 1e-9 * (1 + L) + (tol if ws else 0) and abs(float(e.get("t")) - wt) <= 1e-9 * (1 + abs(wt)), "%s is written at s=%s t=%s", where, e.get("s"), e.get("t"))
        ch.req(ref.adiff(float(e.get("hdg")), wh) < 1e-9, "%s has heading %s instead of %.6g", where, e.get("hdg"), wh)
        reps = e.findall("repeat")
        mine = pattern.findall("repeat")
        ch.req(len(reps) == len(mine) + 1, "%s has %d repeats instead of %d", where, len(reps), len(mine) + 1)
        ch.req([r.attrib for r in reps[:-1]] == [r.attrib for r in mine], "%s has other repeats than the prototype", where)
        r = reps[-1]
        ch.req(float(r.get("distance")) == float(distance), "%s repeats every %s instead of %s", where, r.get("distance"), distance)
        ch.req(abs(float(r.get("s")) - float(e.get("s"))) <= 1e-9 * (1 + L), "%s repeats from %s", where, r.get("s"))
        ch.req(abs(float(r.get("length")) - wl) <= tol, "%s repeats over %s instead of %.9g", where, r.get("length"), wl)
        ch.req(abs(float(r.get("tStart")) - wt) <= 1e-9 * (1 + abs(wt)) and abs(float(r.get("tEnd")) - wt) <= 1e-9 * (1 + abs(wt)), "%s repeats from t=%s to t=%s", where, r.get("tStart"), r.get("tEnd"))
        z = pattern.get("zOffset")
        ch.req(r.get("zOffsetStart") == z and r.get("zOffsetEnd") == z, "%s repeats at height %s to %s instead of %s", where, r.get("zOffsetStart"), r.get("zOffsetEnd"), z)
        skip = ("s", "t", "hdg", "id")
        a, b = ({k: v for k, v in x.attrib.items() if k not in skip} for x in (e, pattern))
        ch.req(a == b, "%s has attributes %s, its prototype %s", where, a, b)
    ch.state(sorted((x.get("s"), x.get("t"), x.get("hdg"), x.find("repeat").get("length")) for x in got))
    ch.outcome("%d objects" % len(got))


def one(ch, P):
    """All lane make-ups, sides and offsets, on differently placed roads of different geometry."""
    makeup = ch.free("lanes", MAKEUPS)
    side = ch.free("side", [None, "both", "left", "right"])
    s = ch.free("s offset", [None, 0, 5, 2.5, 20, 60, 1000])
    t = ch.free("t offset", [None, 0, 1, 0.75, -1])
    distance = ch.dev("distance", [10, 0, 2.5, 1000])
    specs = ch.dev("geometry", GEOMS)
    kw = ch.dev("prototype", PROTOS)
    place = ch.dev("prototype at", [(0, 0), (5, -3), (1000, 1.5)])
    reps = ch.dev("own repeats", [0, 1, 2])
    pose = ch.dev("road starts", [None, (30, 40.0, 2.0)])
    types = ch.dev("lane types", [("driving",), TYPES, TYPES[1:2], TYPES[2:3], TYPES[::-1]])
    road, L = build(P, specs, makeup, 1, pose, types)
    other, _ = build(P, GEOMS[0], MAKEUPS[1], 2)
    odr = P.OpenDrive("x")
    where = ch.dev("placed", ["alone", "before another", "behind another", "connecting"])
    if where == "before another":
        road.add_successor(P.ElementType.road, 2, P.ContactPoint.start)
        odr.add_road(other)
        other.planview.set_start_point(1, 2, 3)
    elif where == "behind another":
        road.add_predecessor(P.ElementType.road, 2, P.ContactPoint.start)
        odr.add_road(other)
    odr.add_road(road)
    odr.adjust_startpoints()
    o = proto(P, kw, place[0], place[1], reps)
    pattern = ref.dump(o.get_element())
    earlier = ch.dev("objects there", [0, 1])
    if earlier:
        road.add_object(P.Object(1, 2, id=77))
    before, own = objects(road), o.get_element()
    add(ch, P, road, o, distance, s, t, side)
    ch.req(ref.dump(o.get_element()) == pattern, "the prototype changes")
    judge(ch, before, objects(road), own, makeup, L, distance, s, t, side)
    ch.req(not objects(other), "the other road gets objects")


def sections(ch, P):
    """Roads of up to 40 lane sections with up to 20 lanes."""
    k, n = ch.free("sections", [2, 4, 5, 9, 10, 17, 40]), ch.free("lanes", [1, 9, 10, 20])
    side = ch.free("side", [None, "both", "left", "right"])
    s, t = ch.free("s offset", [None, 0.5, 3]), ch.free("t offset", [None, 1])
    way = ch.free("lanes vary", ["no", "by section"])
    makeup = [(i / k, [1 + 0.5 * j for j in range(n if way == "no" else (n + i) % (n + 1))], [2 + 0.25 * j for j in range(n if way == "no" else (n + 2 * i) % (n + 1))]) for i in range(k)]
    road, L = build(P, GEOMS[0], makeup, 1)
    odr = P.OpenDrive("x")
    odr.add_road(road)
    odr.adjust_startpoints()
    o = proto(P, PROTOS[1])
    add(ch, P, road, o, 2, s, t, side)
    judge(ch, [], objects(road), o.get_element(), makeup, L, 2, s, t, side)


def twice(ch, P):
    """The same prototype at several roads, changed in between."""
    roads = [build(P, GEOMS[0], ch.free("lanes of road %d" % i, MAKEUPS[1:7:2]), i + 1, (0, 100 * i, 0)) for i in range(2)]
    mk = [r.lanes for r, _ in roads]
    odr = P.OpenDrive("x")
    for r, _ in roads:
        odr.add_road(r)
    odr.adjust_roads_and_lanes()
    o = proto(P, ch.free("prototype", PROTOS[:4]))
    mk = [[(sec.s / L, [l.a for l in sec.leftlanes], [l.a for l in sec.rightlanes]) for sec in r.lanes.lanesections] for r, L in roads]
    done = [[], []]
    for k in range(3):
        i = ch.free("road", [0, 1])
        side, s, t = ch.free("side", ["both", "left", "right"]), ch.dev("s offset", [0, 3]), ch.dev("t offset", [0, 2])
        if k and ch.dev("prototype changed", [False, True]):
            o.name = "changed %d" % k
            o.repeat(4, 4)
        own, others = o.get_element(), [ref.dump(x) for x in objects(roads[1 - i][0])]
        before = objects(roads[i][0])
        add(ch, P, roads[i][0], o, 5 + k, s, t, side)
        ch.req(ref.dump(own) == ref.dump(o.get_element()), "the prototype changes")
        judge(ch, before, objects(roads[i][0]), own, mk[i], roads[i][1], 5 + k, s, t, side)
        ch.req(others == [ref.dump(x) for x in objects(roads[1 - i][0])], "objects of the other road change")


def rejected(ch, P):
    """Roads that are not adjusted refuse; nothing is added, and it works afterwards."""
    makeup = ch.free("lanes", MAKEUPS)
    fixed = ch.free("fixed start", [None, (5, 5, 1)])
    side = ch.free("side", [None, "both", "left", "right"])
    added = ch.free("road added to a document", [False, True])
    earlier = ch.free("objects there", [0, 1])
    road, L = build(P, GEOMS[0], makeup, 1, fixed)
    odr = P.OpenDrive("x")
    if added:
        odr.add_road(road)
    if earlier:
        road.add_object(P.Object(1, 2))
    o = proto(P, ch.free("prototype", PROTOS[:5]))
    pattern, before = ref.dump(o.get_element()), [ref.dump(x) for x in objects(road)]
    try:
        add(ch, P, road, o, 10, 0, 0, side)
    except P.exceptions.RoadsAndLanesNotAdjusted:
        ch.outcome("rejected")
    else:
        raise Violation("a roadside object is accepted although the road is not adjusted")
    ch.req(ref.dump(o.get_element()) == pattern, "the prototype changes")
    ch.req([ref.dump(x) for x in objects(road)] == before, "objects are added although the road is not adjusted")
    if not added:
        odr.add_road(road)
    odr.adjust_roads_and_lanes()
    b = objects(road)
    add(ch, P, road, o, 10, 0, 0, side)
    judge(ch, b, objects(road), o.get_element(), makeup, L, 10, 0, 0, side)


SCENARIOS = [Scenario("one", one, 1, 2), Scenario("sections", sections), Scenario("twice", twice, 1, 2), Scenario("rejected", rejected)]
ASSUMPTIONS = ["lane widths are constant (the code documents that it reads the constant coefficient only)", "lengths of normalised polynomials within 2e-4 of the road length"]
