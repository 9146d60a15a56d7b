"""Generated roads have exactly the requested make-up."""
from ..engine import Scenario
from .. import ref, geo

IDS = [1, 0, 7, "12", "A7", 123456, -3]
JUNCTIONS = [None, -1, 1, 5, 0, 100]
WIDTHS = [None, 3, 2.5, 3.75, 0.5, 4.0, 0, 0.001, 1000]


def judge_lanes(ch, road, nl, nr, width):
    secs = road.findall("lanes/laneSection")
    ch.req(len(secs) == 1 and float(secs[0].get("s")) == 0, "lane sections %s instead of one at 0", [s.attrib for s in secs])
    for side, n, sign in (("left", nl, 1), ("right", nr, -1)):
        lanes = secs[0].findall(side + "/lane")
        ids = [l.get("id") for l in lanes]
        ch.req(sorted(ids) == sorted(str(sign * (i + 1)) for i in range(n)), "%s lanes %s instead of %d", side, ids, n)
        for l in lanes:
            w = [{k: float(v) for k, v in x.attrib.items()} for x in l.findall("width")]
            ch.req(w == [{"a": float(width), "b": 0.0, "c": 0.0, "d": 0.0, "sOffset": 0.0}], "%s lane %s has width %s instead of %s", side, l.get("id"), w, width)
            ch.req(l.get("type") == "driving", "%s lane %s has type %s", side, l.get("id"), l.get("type"))
    c = secs[0].findall("center/lane")
    ch.req(len(c) == 1 and c[0].get("id") == "0", "centre lanes %s", [x.get("id") for x in c])
    return secs[0]


def judge_road(ch, P, road, rid, junction, specs, start=(0.0, 0.0, 0.0)):
    """identity, membership and geometries (the road gets adjusted)"""
    odr = P.OpenDrive("x")
    if not (road.road_type == -1):
        ch.outcome("connecting")
    odr.add_road(road)
    odr.adjust_roads_and_lanes()
    ch.op(2)
    els = odr.get_element().findall("road")
    ch.req(len(els) == 1, "%d roads", len(els))
    e = els[0]
    ch.req(e.get("id") == str(rid), "road id %s instead of %s", e.get("id"), rid)
    ch.req(e.get("junction") == str(-1 if junction is None else junction), "junction %s instead of %s", e.get("junction"), junction)
    ch.req(not [c for l in e.findall("link") for c in l], "the new road is linked already")
    gs = ref.read_geoms(e.find("planView"))
    ch.req(len(gs) == len(specs), "%d geometries written for %d", len(gs), len(specs))
    pose, s = start, 0.0
    for i, (spec, (gs_, gp, gl, kind, at)) in enumerate(zip(specs, gs)):
        wk, wat, wl = ref.curve_spec(spec)
        ch.req(kind == wk and at.keys() == wat.keys(), "geometry %d is a %s %s instead of %s", i, kind, sorted(at), spec)
        ch.req(all(at[k] == wat[k] or abs(at[k] - wat[k]) <= 1e-12 for k in wat if k != "pRange") and at.get("pRange") == wat.get("pRange"), "geometry %d has %s instead of %s", i, at, wat)
        tol = 1e-4 * (1 + wl) if spec[0] == "polyN" else 1e-8 * (1 + wl)
        ch.req(abs(gl - wl) <= tol and abs(gs_ - s) <= tol * len(gs), "geometry %d at %s of length %s instead of %s at %s", i, gs_, gl, wl, s)
        ch.req(ref.same_pose(gp, pose, sum(g[2] for g in gs), 1e-7, 1e-7), "geometry %d starts at %s instead of %s", i, ref.show(gp), ref.show(pose))
        pose = ref.step(pose, ref.local(spec)[0])
        s += gl
    ch.req(abs(float(e.get("length")) - s) <= 1e-8 * (1 + s), "road length %s instead of %s", e.get("length"), s)
    ch.state(ref.dump(e))
    return e


def marks(e):
    return [m for m in e.findall("roadMark")]


def mark_type(ch, lane, want, where):
    ms = marks(lane)
    ch.req(len(ms) == 1, "%s has %d road marks", where, len(ms))
    ch.req(ms[0].get("type") == want, "%s has a %s mark instead of %s", where, ms[0].get("type"), want)


CENTRES = [None, "without", ("solid", 0.2), ("broken", 0.3), ("solid_solid", 0.25), ("none", 0.1), ("botts_dots", 0.15)]


def judge_create(ch, P, e, nl, nr, width, centre):
    sec = judge_lanes(ch, e, nl, nr, 3 if width is None else width)
    for side, n in (("left", nl), ("right", nr)):
        for l in sec.findall(side + "/lane"):
            i = abs(int(l.get("id")))
            mark_type(ch, l, "solid" if i == n else "broken", "%s lane %d of %d" % (side, i, n))
    c = centre or ("solid", 0.2)
    ms = marks(sec.find("center/lane"))
    if centre == "without":
        ch.req(not ms, "the centre lane has marks %s although none was wanted", [m.attrib for m in ms])
        return
    ch.req(len(ms) == 1 and ms[0].get("type") == c[0].replace("_", " ") and float(ms[0].get("width")) == c[1], "the centre lane has marks %s instead of %s", [m.attrib for m in ms], c)


def make(ch, P, geometry, rid, nl, nr, junction, centre, width):
    kw = {}
    if nl is not None:
        kw["left_lanes"] = nl
    if nr is not None:
        kw["right_lanes"] = nr
    if junction is not None:
        kw["road_type"] = junction
    if centre is not None:
        kw["center_road_mark"] = None if centre == "without" else P.RoadMark(getattr(P.RoadMarkType, centre[0]), centre[1])
    if width is not None:
        kw["lane_width"] = width
    ch.op()
    return P.create_road(geometry, rid, **kw)


def create_kinds(ch, P):
    """Every kind and parameterisation of geometry, alone and in lists."""
    n = ch.free("geometries", [1, "list of 1", 2, 3])
    k = 1 if n in (1, "list of 1") else n
    alphabet = geo.SPECS if k == 1 else geo.CORE
    specs = [ch.free("geometry %d" % i, alphabet) for i in range(k)]
    gs = [ref.build(P, s) for s in specs]
    rid, junction = ch.dev("id", IDS), ch.dev("junction", JUNCTIONS)
    nl, nr = ch.dev("left lanes", [None, 0, 1, 2, 3]), ch.dev("right lanes", [None, 0, 1, 2, 3])
    centre, width = ch.dev("centre mark", CENTRES), ch.dev("width", WIDTHS)
    r = make(ch, P, gs[0] if n == 1 else gs, rid, nl, nr, junction, centre, width)
    if n != 1:
        ch.req(len(gs) == k, "the list given by the user now has %d entries", len(gs))
    e = judge_road(ch, P, r, rid, junction, specs)
    judge_create(ch, P, e, 1 if nl is None else nl, 1 if nr is None else nr, width, centre)


def create_lanes(ch, P):
    """All lane numbers and widths."""
    nl, nr = ch.free("left lanes", [None, 0, 1, 2, 3, 4, 7, 12]), ch.free("right lanes", [None, 0, 1, 2, 3, 4, 7, 12])
    width, centre = ch.free("width", WIDTHS), ch.free("centre mark", CENTRES)
    rid, junction = ch.dev("id", IDS), ch.dev("junction", JUNCTIONS)
    before = ch.dev("made before", ["nothing", "a road with other lanes", "a road sharing the geometry"])
    g = P.Line(25)
    if before != "nothing":
        make(ch, P, g if before == "a road sharing the geometry" else P.Line(3), 99, 2, 3, None, ("broken", 0.7), 1.5)
    e = judge_road(ch, P, make(ch, P, g, rid, nl, nr, junction, centre, width), rid, junction, [("line", 25)])
    judge_create(ch, P, e, 1 if nl is None else nl, 1 if nr is None else nr, width, centre)


def straight(ch, P):
    n, width = ch.free("lanes", [None, 0, 1, 2, 3, 4, 7, 12]), ch.free("width", WIDTHS)
    length = ch.free("length", [None, 100, 1, 0.5, 12345.678, 33])
    rid, junction = ch.free("id", IDS), ch.free("junction", JUNCTIONS)
    style = ch.dev("arguments", ["by name", "in order"])
    if style == "in order":
        args = [rid, 100 if length is None else length, -1 if junction is None else junction, 1 if n is None else n, 3 if width is None else width]
        r = P.create_straight_road(*args)
    else:
        kw = dict(length=length, junction=junction, n_lanes=n, lane_offset=width)
        r = P.create_straight_road(rid, **{k: v for k, v in kw.items() if v is not None})
    ch.op()
    e = judge_road(ch, P, r, rid, junction, [("line", 100 if length is None else length)])
    n = 1 if n is None else n
    judge_lanes(ch, e, n, n, 3 if width is None else width)


def several(ch, P):
    """Roads made one after another in any mix; each has its own make-up, all are looked at in the end."""
    made = []
    for i in range(ch.free("roads", [2, 3])):
        kind = ch.free("road %d" % (i + 1), ["create_road", "create_straight_road", "create_cloth_arc_cloth"])
        n, w = ch.free("lanes", [1, 2]), ch.free("width", [3, 2])
        rid = 10 + i
        if kind == "create_road":
            r, specs = make(ch, P, [P.Line(5), P.Arc(0.1, angle=1)], rid, n, n + 1, None, None, w), [("line", 5), ("arcA", 0.1, 1)]
        elif kind == "create_straight_road":
            r, specs = P.create_straight_road(rid, 40 + i, n_lanes=n, lane_offset=w), [("line", 40 + i)]
        else:
            r, specs = P.create_cloth_arc_cloth(0.1, 0.5, 0.25, rid, junction=-1, n_lanes=n, lane_offset=w), [("spA", 1e-9, 0.1, 0.25), ("arcA", 0.1, 0.5), ("spA", 0.1, 1e-9, 0.25)]
        made.append((kind, r, rid, n, w, specs))
    for kind, r, rid, n, w, specs in made:
        e = judge_road(ch, P, r, rid, -1, specs)
        if kind == "create_road":
            judge_create(ch, P, e, n, n + 1, w, None)
        else:
            judge_lanes(ch, e, n, n, w)


def many(ch, P):
    """Roads of up to 40 geometries."""
    n, shift, step = ch.free("geometries", [4, 5, 7, 12, 40]), ch.free("shift", range(len(geo.CORE))), ch.free("step", [0, 1, 2])
    specs = [geo.CORE[(shift + i * step) % len(geo.CORE)] for i in range(n)]
    r = make(ch, P, [ref.build(P, s) for s in specs], 5, None, None, None, None, None)
    judge_create(ch, P, judge_road(ch, P, r, 5, None, specs), 1, 1, None, None)


def standard(ch, P):
    """Standard lanes, several of them in one road."""
    ls = P.LaneSection(0, P.standard_lane(0))
    want = {}
    for side in ("left", "right"):
        for i in range(ch.free(side + " lanes", [0, 1, 2])):
            w, m = ch.free("width", [None, 2.5, 4]), ch.free("mark", [None, ("solid", 0.2), ("solid_solid", 0.3)])
            kw = {}
            if w is not None:
                kw["offset"] = w
            if m is not None:
                kw["rm"] = P.RoadMark(getattr(P.RoadMarkType, m[0]), m[1])
            (ls.add_left_lane if side == "left" else ls.add_right_lane)(P.standard_lane(**kw))
            want[side, i + 1] = 3 if w is None else w, m or ("broken", 0.2)
    ch.op(len(want) + 1)
    e = ls.get_element()
    ch.state(ref.dump(e))
    for (side, i), (w, m) in want.items():
        l = [x for x in e.findall(side + "/lane") if abs(int(x.get("id"))) == i]
        ch.req(len(l) == 1, "%d %s lanes %d", len(l), side, i)
        ws = [{k: float(v) for k, v in x.attrib.items()} for x in l[0].findall("width")]
        ch.req(ws == [{"a": float(w), "b": 0.0, "c": 0.0, "d": 0.0, "sOffset": 0.0}], "standard lane has width %s instead of %s", ws, w)
        ch.req(l[0].get("type") == "driving", "standard lane has type %s", l[0].get("type"))
        ms = [(x.get("type"), float(x.get("width"))) for x in marks(l[0])]
        ch.req(ms == [(m[0].replace("_", " "), m[1])], "standard lane has marks %s instead of %s", ms, m)


SCENARIOS = [Scenario("many", many), Scenario("standard", standard), Scenario("kinds", create_kinds, 1, 2), Scenario("lanes", create_lanes, 1, 2), Scenario("straight", straight, 1, 1), Scenario("several", several)]
ASSUMPTIONS = ["lane marks of create_straight_road and create_cloth_arc_cloth are not specified"]
