"""Construction steps that do not depend on each other commute."""
import copy
from ..engine import Scenario
from .. import nets, ref
from ..nets import R, Net, ENDS


class Build:
    """Steps of building a network, with what each needs to have happened before."""

    def __init__(self, P, net, extras):
        self.P, self.net, self.odr = P, net, P.OpenDrive("net")
        self.pv, self.lanes, self.secs, self.roads = {}, {}, {}, {}
        self.done = []
        self.steps = {}  # name -> (needs, function); the order of insertion is the ordinary order
        for n, r in net.roads.items():
            self.pv[n] = P.PlanView(*r.fixed) if r.fixed is not None else P.PlanView()
            self.lanes[n] = P.Lanes()
            self.secs[n] = [P.LaneSection(k * r.length / len(r.secs), P.Lane()) for k in range(len(r.secs))]
            self.road_steps(n, r, extras)
        self.junctions(extras)
        need = [s for s in self.steps if s.split()[0] in ("geometry", "section", "lanes", "link", "add")]
        self.steps["adjust"] = (need, self.odr.adjust_roads_and_lanes)

    def road_steps(self, n, r, extras):
        P = self.P

        def road():
            self.roads[n] = P.Road(self.net.idv(n), self.pv[n], self.lanes[n], -1 if r.junction is None else self.net.ids["junction", r.junction], "road " + n)
        for i, s in enumerate(r.specs):
            self.step("geometry %s %d" % (n, i), ["geometry %s %d" % (n, i - 1)] if i else [], lambda s=s: self.pv[n].add_geometry(ref.build(P, s)))
        for k, (nl, nr) in enumerate(r.secs):
            sec = self.secs[n][k]

            def fill(nl=nl, nr=nr, sec=sec, k=k):
                for i in range(nl):
                    sec.add_left_lane(P.Lane(a=3))
                for i in range(nr):
                    sec.add_right_lane(P.Lane(a=3))
            self.step("lanes %s %d" % (n, k), [], fill)
            if k and "linker" in extras:
                def linked(k=k):
                    lk = P.LaneLinker()
                    a, b = self.secs[n][k - 1], self.secs[n][k]
                    for x, y in list(zip(a.leftlanes, b.leftlanes)) + list(zip(a.rightlanes, b.rightlanes)):
                        lk.add_link(x, y)
                    self.lanes[n].add_lanesection(b, lk)
                self.step("section %s %d" % (n, k), ["section %s %d" % (n, k - 1), "lanes %s %d" % (n, k), "lanes %s %d" % (n, k - 1)], linked)
            else:
                self.step("section %s %d" % (n, k), ["section %s %d" % (n, k - 1)] if k else [], lambda sec=sec: self.lanes[n].add_lanesection(sec))
            if "marks" in extras and (nl or nr):
                self.step("mark %s %d" % (n, k), ["lanes %s %d" % (n, k)], lambda sec=sec: (sec.leftlanes + sec.rightlanes)[0].add_roadmark(P.RoadMark(P.RoadMarkType.broken, 0.3)))
        self.step("road " + n, [], road)
        for e in ENDS:
            if r.at(e):  # the links of one road are written in the order declared
                self.step("link %s %s" % (n, e), ["road " + n] + (["link %s start" % n] if e == "end" and r.at("start") else []), lambda e=e: self.net.declare(P, self.roads[n], n, e))
        self.step("add " + n, ["road " + n], lambda: self.odr.add_road(self.roads[n]))
        if "signals" in extras:
            self.step("signal " + n, ["road " + n], lambda: self.roads[n].add_signal(P.Signal(3, 1, "de", "274", name=n)))
        if "objects" in extras:
            o = P.Object(4, 2, name=n)
            self.step("object " + n, ["road " + n], lambda: self.roads[n].add_object(o))
            self.step("repeat " + n, [], lambda: o.repeat(10, 2))

    def junctions(self, extras):
        P, net = self.P, self.net
        for j in sorted({r.junction for r in net.roads.values() if r.junction is not None}):
            J = P.Junction("junction " + j, net.ids["junction", j])
            last = None
            for n, r in net.roads.items():
                if r.junction == j:
                    for e in ENDS:
                        c = P.Connection(net.ids[r.at(e)[1]], net.ids[n], getattr(P.ContactPoint, e))
                        name = "%s %s" % (n, e)
                        self.step("connection " + name, ["connection " + last] if last else [], lambda c=c: J.add_connection(c))  # connections are numbered in the order added
                        self.step("lanelink " + name, [], lambda c=c: c.add_lanelink(-1, -1))
                        last = name
            self.step("junction " + j, [], lambda J=J: self.odr.add_junction(J))

    def step(self, name, needs, f):
        self.steps[name] = (needs, f)

    def enabled(self):
        return [s for s, (needs, _) in self.steps.items() if s not in self.done and all(x in self.done for x in needs)]

    def do(self, s):
        self.steps[s][1]()
        self.done.append(s)

    def document(self):
        """independent of the order of roads, junctions and the links of a lane; without generated ids"""
        doc = copy.deepcopy(self.odr.get_element())
        for e in doc.iter():
            if e.tag in ("signal", "object"):
                e.attrib.pop("id", None)
            if e.tag == "lane":
                for l in e.findall("link"):
                    l[:] = sorted(l, key=lambda x: (x.tag, x.get("id")))
        doc[:] = [doc[0]] + sorted(doc[1:], key=lambda x: (x.tag, x.get("id")))
        return doc


PRIORITIES = {
    "as usual": lambda names: names,
    "backwards": lambda names: names[::-1],
    "document first": lambda names: sorted(names, key=lambda s: ["road", "add", "junction", "link", "section", "lanes", "geometry"].index(s.split()[0]) if s.split()[0] in ("road", "add", "junction", "link", "section", "lanes", "geometry") else 9),
    "roads last": lambda names: sorted(names, key=lambda s: ["geometry", "lanes", "section", "mark", "lanelink", "repeat", "connection", "road", "add"].index(s.split()[0]) if s.split()[0] in ("geometry", "lanes", "section", "mark", "lanelink", "repeat", "connection", "road", "add") else 10),
    "adjust early": lambda names: sorted(names, key=lambda s: s.split()[0] in ("signal", "object", "repeat", "mark", "connection", "lanelink", "junction")),
}


def shape_two(ch):
    net = Net([R("A", nets.GEOMS[3], fixed=(5.0, 6.0, 1.0)), R("B", nets.GEOMS[1])])
    net.road_link("A", "end", "B", ch.free("B meets A at", ENDS))
    net.roads["A"].secs = list(ch.free("lanes", [((1, 1),), ((2, 1), (1, 1)), ((0, 1), (1, 1), (1, 1))]))
    net.roads["B"].secs = [(1, 1)]
    return net


def shape_junction(ch):
    net = Net([R("A", nets.GEOMS[0], fixed=(5.0, 6.0, 1.0)), R("C", nets.GEOMS[1], junction="J"), R("B", nets.GEOMS[0])])
    net.connect("C", "A", ch.free("C starts at A's", ENDS), "B", ch.free("C ends at B's", ENDS), *ch.free("lane offsets", [(0, 0), (1, -1)]))
    for r in net.roads.values():
        r.secs = [(2, 2)] if r.junction is None else [(1, 1)]
    if net.roads["C"].pred[3]:
        net.roads["C"].secs = [(0, 1)]
    return net


def shape_split(ch):
    names = ["A", "C", "D", "B", "E"]
    net = Net([R(x, nets.GEOMS[0] if x in "AC" else nets.GEOMS[1], junction="J" if x in "CD" else None, fixed=(1, 2, 0.5) if x == "A" else None) for x in names])
    net.connect("C", "A", "end", "B", ch.free("C ends at B's", ENDS))
    net.connect("D", "A", "end", "E", "start")
    return net


def orders(shape, extras):
    def fn(ch, P):
        net = shape(ch)
        net.number(ch)
        first = Build(P, net, extras)
        for s in list(first.steps):
            first.do(s)
        want = first.document()
        b = Build(P, net, extras)
        pri = PRIORITIES[ch.free("priorities", list(PRIORITIES))](list(b.steps))
        rank = {s: i for i, s in enumerate(pri)}
        while len(b.done) < len(b.steps):
            en = sorted(b.enabled(), key=rank.get)
            b.do(ch.dev("step", en) if len(en) > 1 else en[0])
            ch.op()
        got = b.document()
        now, ids = b.odr.get_element(), [str(net.ids[s.split()[1]]) for s in b.done if s.startswith("add ")]
        ch.req([r.get("id") for r in now.findall("road")] == ids, "built in the order %s the roads are written as %s", b.done, [r.get("id") for r in now.findall("road")])
        ch.state(ref.dump(got))
        d = ref.similar(want, got)
        ch.req(d is None, "built in the order %s the document differs from that of the usual order: %s", b.done, d)
    return fn


SCENARIOS = [Scenario("two", orders(shape_two, ()), 2, 3), Scenario("two-furnished", orders(shape_two, ("signals", "objects", "marks", "linker")), 1, 2),
             Scenario("junction", orders(shape_junction, ()), 1, 2), Scenario("junction-furnished", orders(shape_junction, ("signals", "objects", "marks")), 1, 2), Scenario("split", orders(shape_split, ("signals",)), 1, 2)]
ASSUMPTIONS = ["the network has a road with a fixed start (otherwise the road added first decides where it lies)", "ids generated for signals and objects, and the order of the links of a lane, are not compared; roads and junctions are written in the order added"]
