"""What a part writes alone is what the document contains for it, and prints as XML that parses back."""
import io
import os
import sys
import xml.etree.ElementTree as ET
from ..engine import Scenario, Violation
from .. import ref
from .c22 import NAMES, raise_skip, scratch

GEOMS = [("line", 20.0), ("arcL", 0.03, 15.0), ("spL", 0.001, 0.02, 10.0), ("polyN", (0, 20, 5, -2, 0, 0, 8, -3)), ("polyA", (0, 1, 0, -1e-4, 0, 0, 0.01, -1e-5), 20.0)]


def build(ch, P, name, variant):
    """-> document, [(kind, part, how to find its element in the document)]"""
    parts = []
    odr = P.OpenDrive(name)
    roads = []
    for i in range(3):
        junction = 7 if i == 2 else -1
        pv = P.PlanView()
        gs = [ref.build(P, s) for s in GEOMS[i:i + 3]]
        for g in gs:
            pv.add_geometry(g)
        lanes = P.Lanes()
        secs = []
        for k in range(2):
            center = P.Lane()
            cm = P.RoadMark(P.RoadMarkType.solid, 0.2, rule=P.MarkRule.no_passing)
            center.add_roadmark(cm)
            sec = P.LaneSection(k * 10.0, center)
            ls = [P.Lane(P.LaneType.driving, a=3), P.Lane(P.LaneType.biking, 3, 0.1, 0.01, 0.001), P.Lane(a=3)]
            mark = P.RoadMark(P.RoadMarkType.broken_broken, 0.1, 3, 4, color=P.RoadMarkColor.yellow)
            ls[0].add_roadmark(mark)
            sec.add_left_lane(ls[0])
            sec.add_left_lane(ls[1])
            sec.add_right_lane(ls[2])
            secs.append((sec, center, ls, cm, mark))
        if i < 2:
            linker = P.LaneLinker()
            for x in range(3):
                linker.add_link(secs[0][2][x], secs[1][2][x])
        for k, (sec, center, ls, cm, mark) in enumerate(secs):
            if i < 2:
                lanes.add_lanesection(sec, linker)
            else:
                lanes.add_lanesection(sec)
        road = P.Road(i + 1, pv, lanes, road_type=junction, name=name)
        roads.append(road)
        R = lambda d, i=i: d.findall("road")[i]
        parts += [("road", road, R), ("plan view", pv, lambda d, R=R: R(d).find("planView")), ("lanes", lanes, lambda d, R=R: R(d).find("lanes"))]
        parts += [("geometry", g, lambda d, R=R, k=k: R(d).findall("planView/geometry")[k][0]) for k, g in enumerate(gs)]
        for k, (sec, center, ls, cm, mark) in enumerate(secs):
            S = lambda d, R=R, k=k: R(d).findall("lanes/laneSection")[k]
            parts.append(("lane section", sec, S))
            parts.append(("centre lane", center, lambda d, S=S: S(d).find("center/lane")))
            parts.append(("road mark", cm, lambda d, S=S: S(d).find("center/lane/roadMark")))
            parts.append(("road mark", mark, lambda d, S=S: S(d).find("left/lane[@id='1']/roadMark")))
            for x, i_ in ((0, 1), (1, 2), (2, -1)):
                parts.append(("lane", ls[x], lambda d, S=S, i_=i_: S(d).find(("left" if i_ > 0 else "right") + "/lane[@id='%d']" % i_)))
        if variant != "plain":
            sigs = [P.Signal(3, 1, name, "20", name=name), P.Signal(4, 1, "de", "21", value=3, unit="m")]
            objs = [P.Object(2, 1, Type=P.ObjectType.pole, name=name), P.Object(8, 1, Type="x", radius=2)]
            objs[1].repeat(10, 2)
            road.add_signal(sigs)
            road.add_object(objs)
            parts += [("signal", s, lambda d, R=R, k=k: R(d).findall("signals/signal")[k]) for k, s in enumerate(sigs)]
            parts += [("object", o, lambda d, R=R, k=k: R(d).findall("objects/object")[k]) for k, o in enumerate(objs)]
    a, b, c = roads
    a.add_successor(P.ElementType.junction, 7)
    b.add_predecessor(P.ElementType.junction, 7)
    c.add_predecessor(P.ElementType.road, 1, P.ContactPoint.end)
    c.add_successor(P.ElementType.road, 2, P.ContactPoint.start)
    if variant == "neighbour":
        a.add_neighbor(P.ElementType.road, 3, P.Direction.same)
    for r in roads:
        odr.add_road(r)
    j = P.Junction(name, 7)
    cons = []
    for k, inc in enumerate((1, 2)):
        con = P.Connection(inc, 3, P.ContactPoint.start if k == 0 else P.ContactPoint.end)
        con.add_lanelink(-1, -1)
        con.add_lanelink(1, 1)
        j.add_connection(con)
        cons.append(con)
    odr.add_junction(j)
    parts.append(("junction", j, lambda d: d.find("junction")))
    parts += [("connection", x, lambda d, k=k: d.findall("junction/connection")[k]) for k, x in enumerate(cons)]
    parts.append(("document", odr, lambda d: d))
    return odr, parts


def console(P, el):
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        P.prettyprint(el)
        return sys.stdout.getvalue()
    finally:
        sys.stdout = old


def parse(text, what):
    try:
        return ref.dump(ET.fromstring(text.strip() if isinstance(text, bytes) else text.strip().encode("utf-8") if not text.startswith("<?xml") else text.strip()))
    except ET.ParseError as e:
        raise Violation("%s: not well-formed: %s (%r)" % (what, e, text[:100]))


def alone(ch, P):
    """Every part, written alone before and after the document was."""
    name = ch.dev("name", ["plain"] + NAMES[1:])
    variant = ch.free("variant", ["plain", "furniture", "neighbour"])
    odr, parts = build(ch, P, name, variant)
    early = ch.free("adjusted", ["first", "never", "twice", "after a look at the parts"])
    if early == "after a look at the parts":
        for kind, p, find in parts:
            if kind not in ("geometry", "plan view", "road", "document"):
                p.get_element()
    if early != "never":
        odr.adjust_roads_and_lanes()
        ch.op()
    if early == "twice":
        odr.adjust_roads_and_lanes()
    before = ch.free("document written", ["first", "last"])
    if before == "first":
        doc = odr.get_element()
    if early == "never":
        parts = [p for p in parts if p[0] != "geometry"]
    order = parts if ch.free("order", ["outer first", "inner first"]) == "outer first" else parts[::-1]
    got = []
    for kind, p, find in order:
        got.append(ref.dump(p.get_element()))
        ch.op()
    if before == "last":
        doc = odr.get_element()
    for (kind, p, find), g in zip(order, got):
        e = find(doc)
        ch.req(e is not None, "the document contains no element for a %s", kind)
        want = ref.dump(e)
        ch.req(g == want, "a %s alone writes %s, in the document %s", kind, g[:300], want[:300])
    ch.state(ref.dump(doc))


def single(ch, P):
    """Documents of one road with every subset of what a road can have."""
    sides = ch.free("lanes", [(1, 1), (0, 0), (2, 0), (0, 1)])
    mark = ch.free("marks", ["none", "all", "centre"])
    sections = ch.free("sections", [1, 2])
    odr = P.OpenDrive("one")
    pv, lanes = P.PlanView(), P.Lanes()
    g = ref.build(P, ch.free("geometry", GEOMS))
    pv.add_geometry(g)
    road = P.Road(ch.free("id", [0, "7"]), pv, lanes, road_type=ch.dev("junction", [-1, 0, 5]), name=ch.dev("name", [None, "", "x"]))
    R = lambda d: d.findall("road")[-1]
    parts = [("road", road, R), ("plan view", pv, lambda d: R(d).find("planView")), ("lanes", lanes, lambda d: R(d).find("lanes")), ("geometry", g, lambda d: R(d).find("planView/geometry")[0])]
    for k in range(sections):
        center = P.Lane(P.LaneType.none)
        if mark != "none":
            center.add_roadmark(P.RoadMark(P.RoadMarkType.solid, 0.1))
        sec = P.LaneSection(k * 2, center)
        S = lambda d, k=k: R(d).findall("lanes/laneSection")[k]
        parts += [("lane section", sec, S), ("centre lane", center, lambda d, S=S: S(d).find("center/lane"))]
        for side, n in zip(("left", "right"), sides):
            for x in range(n):
                l = P.Lane(a=x, b=0.5)
                if mark == "all":
                    l.add_roadmark(P.RoadMark(P.RoadMarkType.broken, 0))
                (sec.add_left_lane if side == "left" else sec.add_right_lane)(l)
                parts.append(("lane", l, lambda d, S=S, side=side, i=(x + 1) * (1 if side == "left" else -1): S(d).find("%s/lane[@id='%d']" % (side, i))))
        lanes.add_lanesection(sec)
    if road.road_type != -1:  # connecting roads need a road to start from
        odr.add_road(P.create_road(P.Line(5), 90))
        road.add_predecessor(P.ElementType.road, 90, P.ContactPoint.start)
        if sides != (1, 1):
            raise_skip()
        odr.add_road(road)
    else:
        for end, add in (("start", road.add_predecessor), ("end", road.add_successor)):
            if ch.dev("junction at the " + end, [False, True]):
                add(P.ElementType.junction, 3)
        odr.add_road(road)
    if ch.dev("neighbour", [False, True]):
        road.add_neighbor(P.ElementType.road, 4, P.Direction.opposite)
    for kind in ("signal", "object"):
        if ch.dev(kind, [False, True]):
            x = P.Signal(1, 2, "de", "5") if kind == "signal" else P.Object(1, 2, radius=1)
            (road.add_signal if kind == "signal" else road.add_object)(x)
            parts.append((kind, x, lambda d, kind=kind: R(d).find("%ss/%s" % (kind, kind))))
    if ch.dev("junction", [False, True]):
        j = P.Junction("", 0)
        con = P.Connection(1, 2, P.ContactPoint.start, ch.free("connection id", [None, 0, 3]))
        j.add_connection(con)
        odr.add_junction(j)
        parts += [("junction", j, lambda d: d.find("junction")), ("connection", con, lambda d: d.find("junction/connection"))]
    if ch.free("adjusted", [True, False]):
        odr.adjust_roads_and_lanes()
    else:
        parts = [p for p in parts if p[0] != "geometry"]
    first = ch.free("first", ["document", "parts"])
    doc = odr.get_element() if first == "document" else None
    got = [ref.dump(p.get_element()) for _, p, _ in parts]
    ch.op(len(parts) + 1)
    if doc is None:
        doc = odr.get_element()
    for (kind, p, find), g in zip(parts, got):
        e = find(doc)
        ch.req(e is not None, "the document contains no element for a %s", kind)
        ch.req(g == ref.dump(e), "a %s alone writes %s, in the document %s", kind, g[:300], ref.dump(e)[:300])
    ch.state(ref.dump(doc))


def printed(ch, P):
    """Every part printed to the console and to files."""
    name = ch.free("name", NAMES)
    odr, parts = build(ch, P, name, "neighbour")
    odr.adjust_roads_and_lanes()
    kinds = []
    for p in parts:
        if p[0] not in [k for k, *_ in kinds]:
            kinds.append(p)
    kinds.append(("dependency", P.signals_objects.Dependency(name, "x"), None))
    kind, p, find = kinds[ch.free("part", list(range(len(kinds))))]
    way = ch.free("to", ["console", "pretty file", "compact file", "default file"])
    el = p.get_element()
    want = ref.dump(el)
    what = "%s named %r to %s" % (kind, name, way)
    d = scratch()
    f = os.path.join(d, "part.xml")
    for _ in range(2):
        if way == "console":
            data = console(P, el)
        else:
            if way == "default file":
                P.printToFile(el, f)
            else:
                P.printToFile(el, f, way == "pretty file")
            with open(f, "rb") as fh:
                data = fh.read()
        ch.op()
        got = parse(data, what)
        ch.req(got == want, "%s: parses back to %s instead of %s", what, got[:300], want[:300])
        ch.req(ref.dump(el) == want, "%s: the element changed", what)
    if kind == "dependency":
        ch.req(dict(el.attrib) == {"id": name, "type": "x"}, "a dependency writes %s", el.attrib)
    ch.state((what, want))


SCENARIOS = [Scenario("alone", alone, 1, 1), Scenario("single", single, 1, 3), Scenario("printed", printed, 0, 0)]
ASSUMPTIONS = ["names contain characters XML can represent, without line breaks or tabs"]
