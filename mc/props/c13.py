"""Lanes are numbered outwards from the centre and written once."""
from ..engine import Scenario
from .. import ref

# lane descriptions: keyword arguments of Lane, road mark or None
COEFFS = [{}, {"a": 3}, {"a": 0}, {"a": 3.5, "b": 0.1}, {"a": 2, "b": -0.25, "c": 0.01, "d": -1e-05}, {"a": 1 / 3, "soffset": 23 / 3}, {"b": 1}, {"c": 2}, {"d": 4.0}, {"soffset": 3},
          {"a": 0, "b": 0, "c": 0, "d": 0, "soffset": 0}, {"a": 1e-7, "d": 123456.789}] + [{k: v} for k in ("a", "b", "c", "d", "soffset") for v in ref.ODD]
KEYS = (("a", "a"), ("b", "b"), ("c", "c"), ("d", "d"), ("soffset", "sOffset"))


def judge_lane(ch, e, kw, typ, mark, lid, where):
    ch.req(e.tag == "lane" and e.get("id") == str(lid), "%s is written as %s with id %s instead of %d", where, e.tag, e.get("id"), lid)
    ch.req(e.get("type") == typ, "%s has type %s instead of %s", where, e.get("type"), typ)
    ws = e.findall("width")
    ch.req(len(ws) == 1, "%s has %d width elements", where, len(ws))
    got = {k: float(v) for k, v in ws[0].attrib.items()}
    want = {x: float(kw.get(k, 0)) for k, x in KEYS}
    ch.req(got == want, "%s has width %s instead of %s", where, got, want)
    ms = e.findall("roadMark")
    if mark is None:
        ch.req(not ms, "%s has a road mark although none was given", where)
    else:
        ch.req(len(ms) == 1 and float(ms[0].get("width")) == mark, "%s has road marks %s instead of the one of width %s", where, [m.attrib for m in ms], mark)
    ch.req(not [c for l in e.findall("link") for c in l], "%s is linked to a lane", where)


def judge_section(ch, e, s, centre, left, right, where):
    ch.req(e.tag == "laneSection" and float(e.get("s")) == float(s), "%s is written as %s %s", where, e.tag, e.attrib)
    tags = [c.tag for c in e]
    want = (["left"] if left else []) + ["center"] + (["right"] if right else [])
    ch.req(tags == want or sorted(tags) == sorted(want), "%s has sides %s instead of %s", where, tags, want)
    for tag, lanes, sign in (("left", left, 1), ("center", [centre], 0), ("right", right, -1)):
        side = e.find(tag)
        got = list(side) if side is not None else []
        ch.req(len(got) == len(lanes), "%s has %d %s lanes instead of %d (ids %s)", where, len(got), tag, len(lanes), [g.get("id") for g in got])
        ch.req([g.get("id") for g in got] == [str(sign * (i + 1)) for i in range(len(lanes))], "%s has its %s lanes in the order %s", where, tag, [g.get("id") for g in got])
        by = {g.get("id"): g for g in got}
        for i, (kw, typ, mark) in enumerate(lanes):
            lid = sign * (i + 1)
            ch.req(str(lid) in by, "%s has no %s lane with id %d (ids %s)", where, tag, lid, [g.get("id") for g in got])
            judge_lane(ch, by[str(lid)], kw, typ, mark, lid, "%s lane %d of %s" % (tag, i + 1, where))


def lane(P, desc):
    kw, typ, mark = desc
    args = dict(kw)
    if typ != "driving" or kw.get("a") == 3.5:
        args["lane_type"] = getattr(P.LaneType, typ.replace(" ", "_"))
    l = P.Lane(**args)
    if mark is not None:
        l.add_roadmark(P.RoadMark(P.RoadMarkType.solid, mark))
    return l


def sequences(ch, P):
    """All orders of adding lanes to up to three sections, each lane with its own width; documents are looked at in between."""
    n = ch.free("sections", [1, 2])
    depth = ch.free("lanes added", list(range(0, 6 if n == 2 else 8)))
    early = ch.dev("sections added", ["before the lanes", "after the lanes", "reversed, after"])
    serial = ch.dev("looked at", ["at the end", "after every step"])
    lanes, secs, want = P.Lanes(), [], []
    for k in range(n):
        c = ({"a": 0.5 + k}, "none", None if k else 0.5)
        secs.append(P.LaneSection(k * 12.5, lane(P, c)))
        want.append((k * 12.5, c, [], []))
    if early == "before the lanes":
        for s in secs:
            lanes.add_lanesection(s)
    for i in range(depth):
        k, side = ch.free("lane %d to" % (i + 1), [(k, side) for k in range(n) for side in ("left", "right")])
        d = ({"a": 3 + i}, "driving", 0.25 + i if i % 2 else None)
        getattr(secs[k], "add_%s_lane" % side)(lane(P, d))
        want[k][2 if side == "left" else 3].append(d)
        ch.op()
        if serial == "after every step":
            for s in secs:
                s.get_element()
            lanes.get_element()
    order = list(range(n))
    if early == "reversed, after":
        order.reverse()
    if early != "before the lanes":
        for k in order:
            lanes.add_lanesection(secs[k])
    for _ in range(2):
        e = lanes.get_element()
        ch.req(e.tag == "lanes" and [c.tag for c in e] == ["laneSection"] * n, "lanes has children %s for %d sections", [c.tag for c in e], n)
        for x, k in zip(e, order):
            judge_section(ch, x, *want[k], where="lane section %d" % (k + 1))
    ch.state(ref.dump(e))


def kinds(ch, P):
    """All lane types and width polynomials on all sides."""
    types = [m.replace("_", " ") for m in ("none driving stop shoulder biking sidewalk border restricted parking bidirectional median special1 special2 special3 roadWorks tram rail "
                                           "entry exit offRamp onRamp connectingRamp bus taxi HOV mwyEntry mwyExit").split()]
    d = [(ch.dev("width of lane %d" % i, [{"a": 3 + i}] + COEFFS), ch.dev("type of lane %d" % i, ["driving"] + types), ch.dev("mark of lane %d" % i, [None, 0.2, 0.1])) for i in range(5)]
    s = ch.dev("s", [0, 10, 0.0, 33.3] + ref.ODD)
    sec = P.LaneSection(s, lane(P, d[0]))
    order = ch.perm("added", [0, 1, 2, 3])
    for i in order:
        (sec.add_left_lane if i < 2 else sec.add_right_lane)(lane(P, d[i + 1]))
    e = sec.get_element()
    ch.op(6)
    ch.state(ref.dump(e))
    judge_section(ch, e, s, d[0], [d[i + 1] for i in order if i < 2], [d[i + 1] for i in order if i >= 2], "the section")


def many(ch, P):
    nl, nr = ch.free("left", [0, 1, 2, 9, 10, 11, 25]), ch.free("right", [0, 1, 2, 9, 10, 11, 25])
    k = ch.free("sections", [1, 3, 12])
    mixed = ch.free("added", ["left first", "right first", "in turn"])
    lanes, want = P.Lanes(), []
    for j in range(k):
        c = ({}, "none", None)
        sec = P.LaneSection(j, lane(P, c))
        L = [({"a": 1 + i}, "driving", None) for i in range(nl if j % 2 == 0 else nr)]
        Rr = [({"a": 50 + i}, "bus", None) for i in range(nr if j % 2 == 0 else nl)]
        todo = [(sec.add_left_lane, x) for x in L], [(sec.add_right_lane, x) for x in Rr]
        seq = todo[0] + todo[1] if mixed == "left first" else todo[1] + todo[0]
        if mixed == "in turn":
            seq = [p[i] for i in range(max(map(len, todo))) for p in todo if i < len(p)]
        for f, x in seq:
            f(lane(P, x))
        lanes.add_lanesection(sec)
        want.append((j, c, L, Rr))
        ch.op(len(seq) + 1)
    e = lanes.get_element()
    ch.state(ref.dump(e))
    ch.req(len(e) == k, "%d lane sections written for %d", len(e), k)
    for x, w, j in zip(e, want, range(k)):
        judge_section(ch, x, *w, where="lane section %d" % (j + 1))


def reused(ch, P):
    """Lane objects that had another place before, and one centre lane for all sections."""
    before = ch.free("was", [None, "left", "right", "centre", "second left"])
    now = ch.free("is", ["left", "right", "centre"])
    d = ({"a": 2.5}, "driving", 0.3)
    x = lane(P, d)
    if before:
        old = P.LaneSection(3, x if before == "centre" else P.Lane())
        if before == "second left":
            old.add_left_lane(P.Lane())
        if before != "centre":
            (old.add_right_lane if before == "right" else old.add_left_lane)(x)
        if ch.free("looked at", [False, True]):
            old.get_element()
    others = ch.free("lanes before it", [0, 1, 2])
    c = ({}, "driving", None)
    sec = P.LaneSection(0, x if now == "centre" else lane(P, c))
    f = [({"a": 1 + i}, "driving", None) for i in range(others)]
    for o in f:
        sec.add_left_lane(lane(P, o))
        sec.add_right_lane(lane(P, o))
    if now != "centre":
        getattr(sec, "add_%s_lane" % now)(x)
    n = ch.free("sections", [1, 2, 3])
    lanes = P.Lanes()
    lanes.add_lanesection(sec)
    for k in range(1, n):
        more = P.LaneSection(k, sec.centerlane)
        more.add_right_lane(lane(P, c))
        lanes.add_lanesection(more)
    e = lanes.get_element()
    ch.op(6 + others)
    ch.state(ref.dump(e))
    ch.req(len(e) == n, "%d lane sections written for %d", len(e), n)
    centre = d if now == "centre" else c
    judge_section(ch, e[0], 0, centre, f + ([d] if now == "left" else []), f + ([d] if now == "right" else []), "the section")
    for k in range(1, n):
        judge_section(ch, e[k], k, centre, [], [c], "lane section %d" % (k + 1))


def network(ch, P):
    """Adjusting a network renumbers nothing."""
    from .. import nets
    net = nets.chain(ch, 2) if ch.free("shape", ["chain", "junction"]) == "chain" else nets.through_junction(ch, tail=False, offsets=(0,))
    make = ch.free("lanes", [((2, 1),), ((1, 1), (2, 2), (1, 1)), ((3, 3),)])
    if ch.free("same", [True, False]) or len(make) > 1:
        make = make if len(set(make[0])) == 1 else ((2, 2),)
    else:
        make = ((2, 2),)
    for r in net.roads.values():
        r.secs = list(make)
    net.number(ch)
    odr, roads = net.build(P)
    odr.adjust_roads_and_lanes()
    ch.op(len(roads) + 1)
    for n, e in net.elements(odr.get_element()).items():
        secs = e.findall("lanes/laneSection")
        ch.req(len(secs) == len(make), "road %s has %d lane sections instead of %d", n, len(secs), len(make))
        for k, (x, (nl, nr)) in enumerate(zip(secs, make)):
            got = [l.get("id") for l in x.iter("lane")]
            want = [str(i) for i in list(range(1, nl + 1)) + [0] + list(range(-1, -nr - 1, -1))]
            ch.req(sorted(got) == sorted(want), "lane section %d of road %s has lanes %s instead of %s", k + 1, n, got, want)
        ch.state(ref.dump(e))


SCENARIOS = [Scenario("sequences", sequences, 1, 2), Scenario("kinds", kinds, 2, 3), Scenario("many", many), Scenario("reused", reused), Scenario("network", network, 1, 2)]
ASSUMPTIONS = ["a lane object is in one lane section at a time (centre lanes can be shared)"]
