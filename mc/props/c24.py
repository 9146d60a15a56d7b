"""Elements built independently do not influence each other."""
import copy
from ..engine import Scenario, Violation
from ..load import load
from .. import ref

# A builder is a list of steps on a dictionary of its own; what it writes at the end must not depend on anybody else.


def _lane(P, d):
    d["lane"] = P.Lane()
    d["sec"] = P.LaneSection(0, P.Lane())
    d["out"] = [d["sec"]]


LANE = [_lane, lambda P, d: d["lane"].add_roadmark(P.STD_ROADMARK_SOLID), lambda P, d: d["lane"].add_link("successor", -2), lambda P, d: d["sec"].add_right_lane(d["lane"]), lambda P, d: d["lane"].add_link("predecessor", 3)]


def _lane2(P, d):
    d["lane"] = P.Lane(lane_type=P.LaneType.biking, a=1, b=2, c=3, d=4, soffset=5)
    d["sec"] = P.LaneSection(3, P.standard_lane())
    d["out"] = [d["sec"]]


LANE2 = [_lane2, lambda P, d: d["lane"].add_link("predecessor", 4), lambda P, d: d["sec"].add_left_lane(d["lane"]), lambda P, d: d["lane"].add_roadmark(P.RoadMark(P.RoadMarkType.broken, 0.3, length=5, space=2, rule=P.MarkRule.caution))]


def _lane3(P, d):
    d["lane"] = P.Lane(a=3, soffset=5)
    d["sec"] = P.LaneSection(0, P.Lane(soffset=2))
    d["out"] = [d["sec"]]


LANE3 = [_lane3, lambda P, d: d["sec"].add_left_lane(d["lane"]), lambda P, d: d["lane"].add_roadmark(P.STD_ROADMARK_BROKEN), lambda P, d: d["sec"].centerlane.add_roadmark(P.STD_ROADMARK_SOLID),
         lambda P, d: d["sec"].add_right_lane(P.standard_lane(2, P.STD_ROADMARK_SOLID))]


def _sections(P, d):
    d["lanes"] = P.Lanes()
    d["sec"] = P.LaneSection(0, P.standard_lane())
    d["lanes"].add_lanesection(d["sec"])
    d["out"] = [d["lanes"]]


def _more(P, d):
    s = P.LaneSection(20, P.Lane(a=0))
    s.add_left_lane(P.standard_lane(4, P.STD_ROADMARK_SOLID))
    d["lanes"].add_lanesection(s)


SECTIONS = [_sections, lambda P, d: d["sec"].add_right_lane(P.standard_lane()), lambda P, d: d["sec"].add_left_lane(P.Lane(a=2)), _more, lambda P, d: d["sec"].add_right_lane(P.Lane(a=1.5))]


def _straight(P, d):
    d["road"] = P.create_straight_road(1)
    d["out"] = [d["road"]]


def _repeat(P, d):
    o = P.Object(1, 2, P.ObjectType.tree, height=4)
    o.repeat(10, 2, tStart=1)
    d["road"].add_object([o, P.Object(3, 3)])


ROAD = [_straight, lambda P, d: d["road"].add_successor(P.ElementType.road, 2, P.ContactPoint.start, lane_offset=1), lambda P, d: d["road"].add_neighbor(P.ElementType.road, 5, P.Direction.same),
        lambda P, d: d["road"].add_signal(P.Signal(5, 2, "de", "274", value=30)), _repeat]


def _straight2(P, d):
    d["road"] = P.create_straight_road(1, 40, junction=3, n_lanes=3, lane_offset=2.5)
    d["out"] = [d["road"]]


# the same call as for ROAD, changed differently afterwards
ROAD3 = [_straight, lambda P, d: d["road"].lanes.lanesections[0].centerlane.add_roadmark(P.RoadMark(P.RoadMarkType.botts_dots, 0.4)), lambda P, d: d["road"].lanes.lanesections[0].leftlanes[0].add_roadmark(P.RoadMark(P.RoadMarkType.curb)),
         lambda P, d: d["road"].lanes.lanesections[0].add_right_lane(P.Lane(a=1)), lambda P, d: d["road"].planview.add_geometry(P.Line(5)), lambda P, d: d["road"].planview.adjust_geometries()]
ROAD2 = [_straight2, lambda P, d: d["road"].add_predecessor(P.ElementType.junction, 2), lambda P, d: d["road"].lanes.lanesections[0].leftlanes[1].add_roadmark(P.RoadMark(P.RoadMarkType.solid, 0.5)),
         lambda P, d: d["road"].lanes.lanesections[0].rightlanes[0].add_link("successor", 7), lambda P, d: d["road"].planview.set_start_point(5, 6, 1), lambda P, d: d["road"].planview.adjust_geometries()]


def _curved(P, d):
    d["road"] = P.create_cloth_arc_cloth(-0.05, -0.5, -0.25, 9, junction=-1, n_lanes=2)
    d["out"] = [d["road"]]


CURVED = [_curved, lambda P, d: d["road"].planview.adjust_geometries(), lambda P, d: d["road"].lanes.lanesections[0].centerlane.add_roadmark(P.STD_ROADMARK_BROKEN),
          lambda P, d: d["road"].add_object_roadside(P.Object(0, 0, P.ObjectType.pole), 5), lambda P, d: d["road"].add_predecessor(P.ElementType.road, 3, P.ContactPoint.end, 2)]


def _general(P, d):
    d["geo"] = [P.Line(10), P.Arc(0.1, angle=0.5), P.Spiral(0, 0.1, length=5), P.ParamPoly3(0, 10, 0, 1, 0, 1, 0, 0)]
    d["out"] = []


def _general_road(P, d):
    d["road"] = P.create_road(d["geo"], 4, 2, 1)
    d["out"] = [d["road"]]


CURVED2 = [_curved, lambda P, d: d["road"].lanes.lanesections[0].centerlane.add_roadmark(P.RoadMark(P.RoadMarkType.botts_dots, 0.4)), lambda P, d: d["road"].lanes.lanesections[0].rightlanes[1].add_roadmark(P.RoadMark(P.RoadMarkType.curb)),
           lambda P, d: d["road"].planview.set_start_point(5, 6, 1), lambda P, d: d["road"].planview.adjust_geometries()]
GENERAL = [_general, _general_road, lambda P, d: d["road"].lanes.lanesections[0].rightlanes[0].add_roadmark(P.RoadMark(P.RoadMarkType.curb)), lambda P, d: d["road"].planview.adjust_geometries(),
           lambda P, d: d["road"].lanes.lanesections[0].add_left_lane(P.standard_lane())]


def _plan(P, d):
    d["pv"] = P.PlanView()
    d["out"] = [d["pv"]]


PLAN = [_plan, lambda P, d: d["pv"].add_geometry(P.Line(7)), lambda P, d: d["pv"].add_geometry(P.Spiral(0.01, 0.05, angle=0.3)), lambda P, d: d["pv"].set_start_point(1, 2, 3), lambda P, d: d["pv"].adjust_geometries()]


def _plan2(P, d):
    d["pv"] = P.PlanView(100, 100, 1)
    d["out"] = [d["pv"]]


PLAN2 = [_plan2, lambda P, d: d["pv"].add_geometry(P.Arc(0.5, length=1), 0.2), lambda P, d: d["pv"].add_geometry(P.Line(3), 0.5), lambda P, d: d["pv"].adjust_geometries()]


def _junction(P, d):
    d["j"] = P.Junction("j", 1)
    d["out"] = [d["j"]]


def _con(k, i=None):
    def con(P, d):
        d["c"] = P.Connection(k, k + 1, P.ContactPoint.start, i)
        d["c"].add_lanelink(-1, -k)
        d["j"].add_connection(d["c"])
    return con


JUNCTION = [_junction, _con(1), lambda P, d: d["c"].add_lanelink(1, 1), _con(4), _con(6, 9)]


def _signal(P, d):
    d["s"] = P.Signal(1, 2, "de", "x", name="n", id=3)
    d["out"] = [d["s"]]


def _object(P, d):
    d["o"] = P.Object(1, 2, name="n", width=4)
    d["out"] = [d["o"]]


SIGNAL = [_signal, lambda P, d: d["s"].get_attributes(), lambda P, d: P.create_straight_road(1).add_signal(d["s"])]
OBJECT = [_object, lambda P, d: d["o"].repeat(5, 1), lambda P, d: P.create_straight_road(1).add_object(d["o"]), lambda P, d: d["o"].repeat(7, 2, 3, zOffsetEnd=4)]


def _linked(P, d):
    d["lanes"], d["linker"] = P.Lanes(), P.LaneLinker()
    d["secs"] = [P.LaneSection(10 * k, P.Lane()) for k in range(3)]
    for s in d["secs"]:
        s.add_left_lane(P.Lane(a=3))
        s.add_right_lane(P.Lane(a=2))
    d["lanes"].add_lanesection(d["secs"][0])
    d["out"] = [d["lanes"]]


def _pair(k, left, right):
    def pair(P, d):
        a, b = d["secs"][k:k + 2]
        for x, y in ([(a.leftlanes[0], b.leftlanes[0])] if left else []) + ([(a.rightlanes[0], b.rightlanes[0])] if right else []):
            d["linker"].add_link(x, y)
    return pair


LINKED = [_linked, _pair(0, True, False), lambda P, d: d["lanes"].add_lanesection(d["secs"][1], d["linker"]), _pair(1, True, True), lambda P, d: d["lanes"].add_lanesection(d["secs"][2], [d["linker"]])]


# a linker whose links are never asked for
UNLINKED = [_linked, _pair(0, True, True), lambda P, d: d["lanes"].add_lanesection(d["secs"][1]), _pair(1, True, False)]


def _turns(k):
    def turns(P, d):
        d["pv"] = P.PlanView(0, 0, 0)
        d["pv"].add_geometry(P.Spiral(0.0, 0.0001 * k, length=200.0 + 100 * k))
        d["pv"].add_geometry(P.Arc(0.05 + 1e-7 * k, length=100))
        d["out"] = [d["pv"]]
    return turns


TURNS = [[_turns(k), lambda P, d: d["pv"].add_geometry(P.ParamPoly3(0, 10, 0, k, 0, 1, 0, k / 10)), lambda P, d: d["pv"].adjust_geometries()] for k in (1, 2)]


def _document(P, d):
    d["odr"] = P.OpenDrive("doc")
    d["out"] = [d["odr"]]


def _two(P, d):
    d["a"], d["b"] = P.create_straight_road(1, 50), P.create_cloth_arc_cloth(0.05, 0.4, 0.2, 2, -1)
    d["a"].add_successor(P.ElementType.road, 2, P.ContactPoint.start)
    d["b"].add_predecessor(P.ElementType.road, 1, P.ContactPoint.end)


DOCUMENT = [_document, _two, lambda P, d: d["odr"].add_road(d["a"]), lambda P, d: d["odr"].add_road(d["b"]), lambda P, d: d["odr"].adjust_roads_and_lanes()]


def _cross(P, d):
    d["odr"] = P.OpenDrive("crossing")
    d["roads"] = [P.create_straight_road(i, 30) for i in range(3)]
    d["out"] = [d["odr"]]


def _conns(P, d):
    import math
    d["conns"] = P.create_junction_roads(d["roads"], [0, math.pi / 2, math.pi], 10)


def _addall(P, d):
    for r in d["roads"] + d["conns"]:
        d["odr"].add_road(r)


CROSSING = [_cross, _conns, lambda P, d: d["odr"].add_junction(P.create_junction(d["conns"], 1, d["roads"])), _addall, lambda P, d: d["odr"].adjust_roads_and_lanes()]
BUILDERS = dict(lane=LANE, lane2=LANE2, lane3=LANE3, sections=SECTIONS, road=ROAD, road2=ROAD2, curved=CURVED, road3=ROAD3, curved2=CURVED2, general=GENERAL, plan=PLAN, plan2=PLAN2, junction=JUNCTION, signal=SIGNAL, object=OBJECT, document=DOCUMENT,
                crossing=CROSSING, linked=LINKED, unlinked=UNLINKED, turns=TURNS[0], turns2=TURNS[1])


def written(d):
    out = []
    for x in d["out"]:
        e = copy.deepcopy(x.get_element())
        for c in e.iter():
            if c.tag in ("signal", "object"):
                c.attrib.pop("id", None)
        out.append(ref.dump(e))
    return "\n".join(out)


_alone = {}


def alone(name, upto):
    if (name, upto) not in _alone:
        P, d = load(), {}
        for s in BUILDERS[name][:upto]:
            s(P, d)
        _alone[name, upto] = written(d)
    return _alone[name, upto]


def whole(ch, P, names, dicts, at, how):
    for n, d, k in zip(names, dicts, at):
        got, want = written(d), alone(n, k)
        ch.state(got)
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            raise Violation("%s: %s is written as ...%s, built alone as ...%s" % (how, n, got[max(0, i - 50):i + 60], want[max(0, i - 50):i + 60]))


def interleaved(ch, P):
    """Two builders, all interleavings of their steps."""
    names = [ch.free("one", list(BUILDERS)), ch.free("other", list(BUILDERS))]
    look = ch.dev("look after every step", [False, True])
    dicts, at, order = [{}, {}], [0, 0], []
    size = [len(BUILDERS[n]) for n in names]
    while at != size:
        k = ch.free("next", [i for i in (0, 1) if at[i] < size[i]])
        BUILDERS[names[k]][at[k]](P, dicts[k])
        at[k] += 1
        order.append(k)
        ch.op()
        if look:
            for j in (0, 1):
                if at[j] == size[j] or (at[j] and names[j] in ("lane", "lane2", "lane3", "junction", "signal", "object")):
                    whole(ch, P, [names[j]], [dicts[j]], [at[j]], "after %s of %s" % (order, names))
    whole(ch, P, names, dicts, at, "%s with steps taken in order %s" % (names, order))


def sequence(ch, P):
    """Several complete builders one after the other, all still as built alone at the end."""
    names = [ch.free("builder %d" % (k + 1), list(BUILDERS)) for k in range(2 + ch.bound)]
    dicts = []
    for n in names:
        d = {}
        for s in BUILDERS[n]:
            s(P, d)
            ch.op()
        dicts.append(d)
    whole(ch, P, names, dicts, [len(BUILDERS[n]) for n in names], "built one after the other: %s" % names)


def prefixes(ch, P):
    """A complete builder, then beginnings of others: what is written does not change."""
    n = ch.free("builder", list(BUILDERS))
    d = {}
    for s in BUILDERS[n]:
        s(P, d)
    before = written(d)
    for k in range(1 + ch.bound):
        m = ch.free("other %d" % (k + 1), list(BUILDERS))
        upto = ch.free("steps", list(range(1, len(BUILDERS[m]) + 1)))
        e = {}
        for s in BUILDERS[m][:upto]:
            s(P, e)
            ch.op()
            if written(d) != before:
                raise Violation("%d steps of %s change what the separate %s writes" % (upto, m, n))
    ch.state((n, before))


def handed(ch, P):
    """Lists handed to several calls: they stay the caller's, and what was built from them stays separate."""
    geos = [P.Line(10), P.Arc(0.05, length=8), P.Spiral(0, 0.05, length=6)]
    gs = geos[:ch.free("geometries in the list", [1, 2])]
    marks = ch.dev("centre mark", [None, P.STD_ROADMARK_SOLID])
    rs, want = [], []

    def add():
        rs.append(P.create_road(gs, len(rs) + 1, 1, 1) if marks is None else P.create_road(gs, len(rs) + 1, 1, 1, center_road_mark=marks))
        want.append(list(gs))
    add()
    for k in range(2 + ch.bound):
        op = ch.free("step %d" % (k + 1), ["road", "extend list", "extend first", "extend last", "shorten list", "reverse list"])
        if op == "road":
            add()
        elif op == "extend list":
            gs.append(geos[2])
        elif op == "shorten list":
            del gs[1:]
        elif op == "reverse list":
            gs.reverse()
        else:
            i = 0 if op == "extend first" else -1
            rs[i].planview.add_geometry(geos[1])
            want[i].append(geos[1])
        ch.op()
    for r, w in zip(rs, want):
        fresh = P.PlanView()
        for g in w:
            fresh.add_geometry(copy.deepcopy(g))
        r.planview.adjust_geometries()
        fresh.adjust_geometries()
        got, exp = ref.dump(r.planview.get_element()), ref.dump(fresh.get_element())
        ch.state(got)
        ch.req(got == exp, "a road made of a list of geometries is written as %s instead of %s", got, exp)


ALIKE = ([("Line", x) for x in (10, 10.0000001, 20)] + [("Spiral", a, b, l) for a, b, l in
         ((0.0, 0.0001, 300.0), (0.0, 0.0002, 400.0), (0.0, 0.0002, 600.0), (0.0001, 0.0002, 300.0), (0, -0.0001, 300.0), (0.01, 0.02, 50), (0.01, 0.02, 50.001), (0.02, 0.03, 50), (0.01, 0.0200001, 50), (0.01, 0.01, 50), (0, 0, 50))]
         + [("Arc", c, l) for c, l in ((0.05, 100), (0.0500001, 100), (-0.05, 100), (0.05, 100.001), (0.05, 100 + 40 * 3.141592653589793), (0.1, 50))]
         + [("ParamPoly3", 0, 10, 0, c, 0, 1, 0, d, r, l) for c, d in ((1, 0.1), (1, 0.1000001), (-1, 0.1), (1, -0.1)) for r, l in (("normalized", None), ("arcLength", 1), ("arcLength", 1.1))])


def reports(P, g, pose, way):
    o = getattr(P, g[0])(*g[1:])
    return tuple(float(v) for v in (o.get_end_data if way == "start" else o.get_start_data)(*pose))


_report = {}


def alike(ch, P):
    """Geometries that are nearly the same, evaluated one after the other: each as if it were the only one."""
    last = None
    for k in range(2 + (ch.bound > 1)):
        g, pose, way = ch.free("geometry %d" % (k + 1), ALIKE), ch.dev("at", [(0, 0, 0), (1e3, -5, 2), (0, 0, 1e-7)]), ch.dev("from its", ["start", "end"])
        if (g, pose, way) not in _report:
            _report[g, pose, way] = reports(load(), g, pose, way)
        got, want = reports(P, g, pose, way), _report[g, pose, way]
        ch.op()
        ch.req(got == want, "%s evaluated at %s from its %s after %s gives %s, alone %s", g, pose, way, last, got, want)
        last = g
    ch.state((g, pose, way))


SCENARIOS = [Scenario("alike", alike, 1, 1, fresh=True), Scenario("interleaved", interleaved, 1, 1), Scenario("sequence", sequence, 1, 2), Scenario("prefixes", prefixes, 1, 2), Scenario("handed", handed, 1, 2), Scenario("fresh", lambda ch, P: sequence(ch, P), 0, 1, fresh=True)]
ASSUMPTIONS = ["ids generated for signals and objects are not compared", "users change elements through methods, not by assigning to attributes of shared road marks"]
