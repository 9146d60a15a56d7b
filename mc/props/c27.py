"""Enumeration members are written as their OpenDRIVE tokens."""
import enum
import itertools
from ..engine import Scenario
from .. import ref

MEMBERS = {
    "MarkRule": "no_passing caution none",
    "LaneType": "none driving stop shoulder biking sidewalk border restricted parking bidirectional median special1 special2 special3 roadWorks tram rail entry exit offRamp onRamp connectingRamp bus taxi HOV mwyEntry mwyExit",
    "RoadMarkColor": "standard blue green red white yellow orange",
    "RoadMarkWeight": "standard bold",
    "RoadMarkType": "none solid broken solid_solid solid_broken broken_solid broken_broken botts_dots grass curb custom edge",
    "RoadType": "unknown rural motorway town lowSpeed pedestrian bicycle townExpressway townCollector townArterial townPrivate townLocal townPlayStreet",
    "LaneChange": "increase decrease both none",
    "ElementType": "road junction",
    "ContactPoint": "start end",
    "Direction": "same opposite",
    "Orientation": "positive negative none",
    "ObjectType": "none obstacle pole tree vegetation barrier building parkingSpace patch railing trafficIsland crosswalk streetLamp gantry soundBarrier roadMark",
    "Dynamic": "yes no",
    "RoadSide": "both left right",
}
MEMBERS = {k: v.split() for k, v in MEMBERS.items()}


def token(e, m):
    return {"positive": "+", "negative": "-"}.get(m, m) if e == "Orientation" else m.replace("_", " ")


def members(ch, P):
    """The enumerations themselves."""
    name = ch.free("enumeration", sorted(MEMBERS))
    e = getattr(P, name)
    ch.req(isinstance(e, type) and issubclass(e, enum.Enum), "%s is no enumeration, its members cannot be converted to text", name)
    got = [m.name for m in e]
    ch.req(set(MEMBERS[name]) <= set(e.__members__), "%s has members %s instead of %s", name, got, MEMBERS[name])
    ch.req(len(e.__members__) == len(got), "members of %s stand for each other: %s", name, sorted(set(e.__members__) - set(got)))
    texts = {}
    for m in e:
        t = P.enum2str(m)
        ch.op()
        ch.req(t == m.name.replace("_", " "), "%s.%s is converted to %r", name, m.name, t)
        ch.req(t not in texts, "%s.%s and %s.%s are converted alike", name, m.name, name, texts.get(t))
        texts[t] = m.name
    ch.state((name, sorted(texts)))


def pick(ch, P, e, label=None):
    m = ch.free(label or e, MEMBERS[e])
    return m, getattr(getattr(P, e), m)


def has(ch, elem, key, e, m):
    got = elem.get(key)
    ch.req(got == token(e, m), "%s.%s is written as %s=%r in %s", e, m, key, got, elem.tag)
    ch.state((elem.tag, key, got))


def lane(ch, P):
    m, v = pick(ch, P, "LaneType")
    side = ch.free("side", ["center", "left", "right"])
    other, w = pick(ch, P, "LaneType", "other lane")
    sec = P.LaneSection(0, P.Lane(lane_type=v) if side == "center" else P.Lane())
    if side != "center":
        add = getattr(sec, "add_%s_lane" % side)
        add(P.Lane(w))
        add(P.Lane(lane_type=v))
        ls = sec.get_element().findall(side + "/lane")
        by = {abs(int(x.get("id"))): x for x in ls}
        has(ch, by[1], "type", "LaneType", other)
        has(ch, by[2], "type", "LaneType", m)
    else:
        has(ch, sec.get_element().find("center/lane"), "type", "LaneType", m)
    ch.op()


def mark(ch, P):
    t, tv = pick(ch, P, "RoadMarkType")
    w, wv = pick(ch, P, "RoadMarkWeight")
    c, cv = pick(ch, P, "RoadMarkColor")
    l = ch.free("LaneChange", [None] + MEMBERS["LaneChange"])
    r = ch.free("MarkRule", [None] + MEMBERS["MarkRule"])
    kw = {}
    if l:
        kw["laneChange"] = getattr(P.LaneChange, l)
    if r:
        kw["rule"] = getattr(P.MarkRule, r)
    x = P.RoadMark(tv, 0.2, marking_weight=wv, color=cv, **kw)
    if ch.free("in a lane", [False, True]):
        lane = P.Lane()
        lane.add_roadmark(x)
        e = P.LaneSection(0, lane).get_element().find("center/lane/roadMark")
    else:
        e = x.get_element()
    ch.op()
    has(ch, e, "type", "RoadMarkType", t)
    has(ch, e, "weight", "RoadMarkWeight", w)
    has(ch, e, "color", "RoadMarkColor", c)
    if l:
        has(ch, e, "laneChange", "LaneChange", l)
    ts = e.findall("type")
    ch.req(len(ts) == (1 if r else 0), "%d type elements in a road mark %s", len(ts), "with a rule" if r else "without line")
    if r:
        has(ch, ts[0], "name", "RoadMarkType", t)
        has(ch, ts[0].find("line"), "rule", "MarkRule", r)


def line(ch, P):
    r, rv = pick(ch, P, "MarkRule")
    c = ch.free("RoadMarkColor", MEMBERS["RoadMarkColor"])
    e = P.RoadLine(0.1, 3, 1, 0, 0, rv, getattr(P.RoadMarkColor, c)).get_element()
    has(ch, e, "rule", "MarkRule", r)
    if e.get("color") is not None:
        has(ch, e, "color", "RoadMarkColor", c)
    ch.op()


def links(ch, P):
    e, ev = pick(ch, P, "ElementType")
    kind = ch.free("link", ["predecessor", "successor", "neighbor"])
    r = P.create_straight_road(1)
    if kind == "neighbor":
        d, dv = pick(ch, P, "Direction")
        r.add_neighbor(ev, 2, dv)
    else:
        d = ch.free("ContactPoint", [None] + MEMBERS["ContactPoint"])
        getattr(r, "add_" + kind)(ev, 2, *([getattr(P.ContactPoint, d)] if d else []))
    x = r.get_element().find("link")[0]
    has(ch, x, "elementType", "ElementType", e)
    if kind == "neighbor":
        has(ch, x, "direction", "Direction", d)
    elif d:
        has(ch, x, "contactPoint", "ContactPoint", d)
    j = P.Junction("j", 1)
    c, cv = pick(ch, P, "ContactPoint", "connection at")
    j.add_connection(P.Connection(1, 2, cv))
    has(ch, j.get_element()[0], "contactPoint", "ContactPoint", c)
    ch.op(2)


def signals(ch, P):
    o, ov = pick(ch, P, "Orientation")
    d, dv = pick(ch, P, "Dynamic")
    where = ch.free("written", ["alone", "in a road", "repeated"])
    t = ch.free("what", ["signal"] + MEMBERS["ObjectType"])
    x = P.Signal(1, 2, "de", "3", orientation=ov, dynamic=dv) if t == "signal" else P.Object(1, 2, Type=getattr(P.ObjectType, t), orientation=ov, dynamic=dv)
    r = P.create_straight_road(1)
    if where == "repeated" and t != "signal":
        x.repeat(10, 1)
    if where != "alone":
        (r.add_signal if t == "signal" else r.add_object)(x)
        e = next(r.get_element().iter("signal" if t == "signal" else "object"))
    else:
        e = x.get_element()
    ch.op()
    has(ch, e, "orientation", "Orientation", o)
    has(ch, e, "dynamic", "Dynamic", d)
    if t != "signal":
        has(ch, e, "type", "ObjectType", t)


def roadside(ch, P):
    """Members survive being copied along the road."""
    t, tv = pick(ch, P, "ObjectType")
    o, ov = pick(ch, P, "Orientation")
    d, dv = pick(ch, P, "Dynamic")
    s, sv = pick(ch, P, "RoadSide")
    r = P.create_straight_road(1, 50)
    odr = P.OpenDrive("x")
    odr.add_road(r)
    odr.adjust_roads_and_lanes()
    r.add_object_roadside(P.Object(0, 0, Type=tv, orientation=ov, dynamic=dv), 10, side=sv)
    es = list(r.get_element().iter("object"))
    ch.req(len(es) == (2 if s == "both" else 1), "%d objects on side %s", len(es), s)
    ts = sorted(float(e.get("t")) for e in es)
    ch.req([x > 0 for x in ts] == {"both": [False, True], "left": [True], "right": [False]}[s], "objects for side %s have t=%s", s, ts)
    for e in es:
        has(ch, e, "type", "ObjectType", t)
        has(ch, e, "orientation", "Orientation", o)
        has(ch, e, "dynamic", "Dynamic", d)
    ch.op()


def network(ch, P):
    """Road links and connections written for a generated junction."""
    n = ch.free("roads", [3, 4])
    roads = [P.create_straight_road(i) for i in range(n)]
    conns = P.create_junction_roads(roads, [i * ref.PI / 2 for i in range(n)], 10)
    odr = P.OpenDrive("x")
    for r in roads + conns:
        odr.add_road(r)
    odr.add_junction(P.create_junction(conns, 1, roads))
    odr.adjust_roads_and_lanes()
    ch.op()
    allowed = {("predecessor", "elementType"): ["road", "junction"], ("successor", "elementType"): ["road", "junction"], ("predecessor", "contactPoint"): ["start", "end"],
               ("successor", "contactPoint"): ["start", "end"], ("connection", "contactPoint"): ["start", "end"], ("lane", "type"): MEMBERS["LaneType"],
               ("roadMark", "type"): [token("RoadMarkType", m) for m in MEMBERS["RoadMarkType"]], ("roadMark", "weight"): MEMBERS["RoadMarkWeight"], ("roadMark", "color"): MEMBERS["RoadMarkColor"]}
    for e in odr.get_element().iter():
        for k, v in e.attrib.items():
            if (e.tag, k) in allowed:
                ch.req(v in allowed[e.tag, k], "%s of %s is %r", k, e.tag, v)
                ch.state((e.tag, k, v))


SCENARIOS = [Scenario(f.__name__, f, 0, 0) for f in (members, lane, mark, line, links, signals, roadside, network)]
