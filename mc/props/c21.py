"""The document holds everything that was added, once, in order."""
from ..engine import Scenario
from .. import ref

IDSETS = [(1, 2, 3), (3, 1, 2), ("10", "9", "x"), (0, "1", -1), (100, 20, 3), ("a b", 5, "05")]
NAMES = [None, "main street", "Ä", "0"]
RULES = [None, "RHT", "LHT"]


def ref_number(text):
    try:
        return float(text) == float(text)
    except ValueError:
        return False


class Doc:
    """The document under construction next to what it has to contain."""

    def __init__(self, ch, P, name="doc", ids=(1, 2, 3), jids=(1, 50), names=(None,) * 3, rules=(None,) * 3, jnames=("one", "two")):
        self.ch, self.P, self.name = ch, P, name
        self.odr = P.OpenDrive(name)
        self.roads, self.want = [], []
        for k, (i, n, r) in enumerate(zip(ids, names, rules)):
            pv = P.PlanView(100.0 * k, 0, 0)
            pv.add_geometry(P.Line(10 + k))
            sec = P.LaneSection(0, P.Lane())
            for _ in range(k + 1):
                sec.add_right_lane(P.Lane(a=2 + k))
            ls = P.Lanes()
            ls.add_lanesection(sec)
            kw = {}
            if n is not None:
                kw["name"] = n
            if r is not None:
                kw["rule"] = r
            junction = jids[0] if k == 2 else -1
            self.roads.append(P.Road(i, pv, ls, road_type=junction, **kw) if k == 2 else P.Road(i, pv, ls, **kw))
            self.want.append(dict(id=str(i), name=n, rule=r, junction=str(junction), n=k, signals=[], objects=[], links=[]))
        self.juncs = [P.Junction(n, i) for n, i in zip(jnames, jids)]
        self.jwant = [dict(name=n, id=str(i), conns=[]) for n, i in zip(jnames, jids)]
        self.added, self.jadded, self.count = [], [], 0
        self.adjusted = False

    def ops(self):
        out = [("road", k) for k in range(len(self.roads)) if k not in self.added]
        out += [("junction", k) for k in range(len(self.juncs)) if k not in self.jadded]
        out += [(w, k) for w in ("signal", "object", "link") for k in range(2)] + [("connection", k) for k in range(len(self.juncs))]
        return out + [("look", 0), ("adjust", 0)]

    def do(self, op):
        what, k = op
        P = self.P
        self.count += 1
        n = self.count
        if what == "road":
            self.odr.add_road(self.roads[k])
            self.added.append(k)
        elif what == "junction":
            self.odr.add_junction(self.juncs[k])
            self.jadded.append(k)
        elif what == "signal":
            self.roads[k].add_signal(P.Signal(n, 0, "de", "1"))
            self.want[k]["signals"].append(n)
        elif what == "signals":
            self.roads[k].add_signal([P.Signal(n + .25, 0, "de", "1"), P.Signal(n + .5, 0, "de", "1")])
            self.want[k]["signals"] += [n + .25, n + .5]
        elif what == "object":
            self.roads[k].add_object(P.Object(n, 0))
            self.want[k]["objects"].append(n)
        elif what == "objects":
            self.roads[k].add_object([P.Object(n + .25, 0), P.Object(n + .5, 0)])
            self.want[k]["objects"] += [n + .25, n + .5]
        elif what == "link":
            if len(self.want[k]["links"]) < 2:
                self.roads[k].add_neighbor(P.ElementType.road, 70 + n, P.Direction.same)
                self.want[k]["links"].append(("neighbor", str(70 + n)))
        elif what == "connection":
            self.juncs[k].add_connection(P.Connection(60 + n, 3, P.ContactPoint.start))
            self.jwant[k]["conns"].append(str(60 + n))
        elif what == "look":
            self.judge()
        elif what == "adjust":
            self.odr.adjust_roads_and_lanes()
            self.adjusted = True
            for k in self.added:
                self.want[k]["adjusted"] = True
        self.ch.op()

    def judge(self):
        ch = self.ch
        e = self.odr.get_element()
        ch.state(["%s %s" % (c.tag, c.get("id")) for c in e.iter()])
        ch.req(e.tag == "OpenDRIVE", "the document is a %s", e.tag)
        tags = [c.tag for c in e]
        ch.req(tags == ["header"] + ["road"] * len(self.added) + ["junction"] * len(self.jadded), "the document consists of %s after adding roads %s and junctions %s", tags, self.added, self.jadded)
        h = e[0]
        ch.req(h.get("name") == self.name and h.get("revMajor") == "1" and h.get("revMinor") == "5" and h.get("date"), "the header of %r is %s", self.name, h.attrib)
        ch.req(all(ref_number(h.get(k, "0")) for k in ("north", "south", "east", "west")), "the extent in the header is %s", h.attrib)
        rs = e.findall("road")
        ch.req([r.get("id") for r in rs] == [self.want[k]["id"] for k in self.added], "roads %s are written after adding %s", [r.get("id") for r in rs], [self.want[k]["id"] for k in self.added])
        for r, k in zip(rs, self.added):
            self.road(r, self.want[k])
        js = e.findall("junction")
        for j, k in zip(js, self.jadded):
            w = self.jwant[k]
            ch.req(j.get("id") == w["id"] and j.get("name") == w["name"], "junction %s is written as %s", w, j.attrib)
            ch.req([c.tag for c in j] == ["connection"] * len(j), "junction %s contains %s", w["id"], [c.tag for c in j])
            got = [c.get("incomingRoad") for c in j]
            ch.req(got == w["conns"], "junction %s has connections of roads %s instead of %s", w["id"], got, w["conns"])
        return e

    def road(self, r, w):
        ch = self.ch
        ch.req(r.get("junction") == w["junction"] and r.get("name") == w["name"] and r.get("rule") == w["rule"], "road %s is written with %s", w, r.attrib)
        extra = set(r.attrib) - {"id", "junction", "name", "rule", "length"}
        ch.req(not extra, "road %s has further attributes %s", w["id"], extra)
        tags = [c.tag for c in r]
        want = ["link", "planView", "lanes"] + (["signals"] if w["signals"] else []) + (["objects"] if w["objects"] else [])
        ch.req(sorted(tags) == sorted(want), "road %s consists of %s instead of %s", w["id"], tags, want)
        for kind in ("signals", "objects"):
            got = [(c.tag, float(c.get("s"))) for c in (r.find(kind) if r.find(kind) is not None else [])]
            ch.req(got == [(kind[:-1], float(x)) for x in w[kind]], "road %s has %s %s instead of %s", w["id"], kind, [g[1] for g in got], w[kind])
        links = [(c.tag, c.get("elementId")) for c in r.find("link")]
        ch.req(links == w["links"], "road %s has links %s instead of %s", w["id"], links, w["links"])
        lanes = [(float(x.find("width").get("a"))) for x in r.findall("lanes/laneSection/right/lane")]
        ch.req(lanes == [2.0 + w["n"]] * (w["n"] + 1) and not r.findall("lanes/laneSection/left"), "road %s has lanes of another one (%s)", w["id"], lanes)
        if w.get("adjusted"):
            gs = ref.read_geoms(r.find("planView"))
            ch.req([(g[1][0], g[2]) for g in gs] == [(100.0 * w["n"], 10.0 + w["n"])], "road %s has geometries %s", w["id"], gs)
            ch.req(float(r.get("length")) == 10.0 + w["n"], "road %s has length %s", w["id"], r.get("length"))


def sequences(ch, P):
    """All sequences of operations."""
    d = Doc(ch, P, ids=ch.dev("ids", IDSETS))
    for k in range(3 + ch.bound):
        d.do(ch.free("step %d" % (k + 1), d.ops()))
    d.judge()


def orders(ch, P):
    """All orders of a full set of operations."""
    d = Doc(ch, P, ids=ch.dev("ids", IDSETS))
    steps = [("road", 0), ("road", 1), ("signal", 0), ("objects", 1), ("junction", 0), ("connection", 0), ("signals", 1)] + ([("road", 2)] if ch.bound > 1 else [])
    for s in ch.perm("step", steps):
        d.do(s)
        if ch.bound > 1 or s[0] != "connection":
            d.judge()
    d.do(("adjust", 0))
    d.judge()


def attributes(ch, P):
    """Names, rules and ids."""
    d = Doc(ch, P, ch.free("document name", ["doc", "a b", "Ü<&>\"'", ""]), ch.free("ids", IDSETS), ch.free("junction ids", [(1, 50), (0, "j"), ("7", 3)]),
            [ch.free("name of road %d" % k, NAMES) for k in range(2)] + [ch.dev("name of road 2", NAMES)],
            [ch.free("rule of road %d" % k, RULES) for k in range(2)] + [ch.dev("rule of road 2", RULES)], ch.dev("junction names", [("one", "two"), ("", "x"), ("same", "same"), ("é", "a<b")]))
    for s in [("road", 0), ("junction", 1), ("road", 2), ("connection", 0), ("road", 1), ("junction", 0), ("signal", 1), ("object", 0)]:
        d.do(s)
    d.judge()
    d.do(("adjust", 0))
    d.judge()


def orders_of_roads(ch, P):
    """Roads and junctions in all orders; numeric order of ids plays no role."""
    d = Doc(ch, P, ids=ch.free("ids", IDSETS))
    for k in ch.perm("road", [0, 1, 2]):
        d.do(("road", k))
    for k in ch.perm("junction", [0, 1]):
        d.do(("junction", k))
    for k in range(3):
        d.do(ch.free("more", [("signal", 0), ("signal", 1), ("signals", 0), ("objects", 1), ("object", 0), ("look", 0), ("adjust", 0)]))
    d.judge()
    other = Doc(ch, P, "other", ids=(1, 5, 9))
    for k in (2, 0, 1):
        other.do(("road", k))
    other.judge()
    d.judge()


def lists(ch, P):
    """Lists belong to the caller: using one again, or changing it, after it was added has no effect on roads."""
    d = Doc(ch, P)
    kind = ch.free("kind", ["signals", "objects"])

    def new():
        d.count += 1
        return P.Signal(d.count, 0, "de", "1") if kind == "signals" else P.Object(d.count, 0)
    for k in range(3):
        d.do(("road", k))
    ls = [[new() for _ in range(n)] for n in ch.free("list lengths", [(1, 2), (2, 0), (0, 1)])]
    for k in range(3 + ch.bound):
        op, i, r = ch.free("step %d" % (k + 1), [("list", i, r) for i in range(2) for r in range(2)] + [("single", 0, 0), ("single", 0, 1), ("extend", 0, 0), ("extend", 1, 0), ("clear", 0, 0)])
        if op == "extend":
            ls[i].append(new())
        elif op == "clear":
            del ls[i][:]
        else:
            what = ls[i] if op == "list" else new()
            many = list(what) if op == "list" else [what]
            getattr(d.roads[r], "add_" + kind[:-1])(what)
            d.want[r][kind] += [int(x.s) for x in many]
        ch.op()
    e = d.odr.get_element()
    for r, w in zip(e.findall("road"), d.want):
        got = [float(c.get("s")) for c in (r.find(kind) if r.find(kind) is not None else [])]
        ch.req(got == [float(x) for x in w[kind]], "road %s has %s %s instead of %s", w["id"], kind, got, w[kind])
    ch.state(ref.dump(e.find("road")))


def big(ch, P):
    """Many roads and junctions."""
    n, m = ch.free("roads", [0, 1, 12, 30]), ch.free("junctions", [0, 1, 12])
    down = ch.free("ids", ["up", "down"])
    odr = P.OpenDrive("big")
    ids = list(range(n)) if down == "up" else list(range(n, 0, -1))
    for i in range(max(n, m)):
        if i < m:
            odr.add_junction(P.Junction("j%d" % i, i))
        if i < n:
            odr.add_road(P.create_straight_road(ids[i], 1 + i))
        ch.op(2)
    e = odr.get_element()
    ch.req([c.tag for c in e] == ["header"] + ["road"] * n + ["junction"] * m, "%d roads and %d junctions are written as %s", n, m, [c.tag for c in e])
    ch.req([r.get("id") for r in e.findall("road")] == [str(i) for i in ids], "roads %s instead of %s", [r.get("id") for r in e.findall("road")], ids)
    ch.req([j.get("id") for j in e.findall("junction")] == [str(i) for i in range(m)], "junctions %s", [j.get("id") for j in e.findall("junction")])
    k, how = ch.free("signals and objects", [0, 1, 12, 40]), ch.free("added", ["single", "list"])
    rs = [odr.roads[str(i)] for i in (ids[0], ids[-1])] if n > 1 else []
    for j, r in enumerate(rs):
        for add, mk in ((r.add_signal, lambda i: P.Signal(i, 0, "de", "1")), (r.add_object, lambda i: P.Object(i, 0))):
            xs = [mk(100 * j + i) for i in range(k)]
            for x in [xs] if how == "list" else xs:
                add(x)
    for j, r in enumerate(rs):
        x = r.get_element()
        for kind in ("signal", "object"):
            got = [float(y.get("s")) for y in x.iter(kind)]
            ch.req(got == [100.0 * j + i for i in range(k)], "%ss at %s instead of %d of them", kind, got, k)
    ch.state([n, m, down, k, how])


SCENARIOS = [Scenario("sequences", sequences, 1, 2), Scenario("orders", orders, 1, 2), Scenario("attributes", attributes, 1, 2), Scenario("orders-of-roads", orders_of_roads), Scenario("lists", lists, 0, 1), Scenario("big", big)]
ASSUMPTIONS = ["road ids are written differently from each other", "every road and junction is added once"]
