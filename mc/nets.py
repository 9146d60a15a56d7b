"""Road networks: plain descriptions, their construction with pyodrx, and what must become of them."""
import itertools
from . import ref
from .ref import PI

ENDS = ("start", "end")


class R:
    """A road of a network. pred/succ: None, ("road", name, contact, offset) or ("junction", junction name)."""

    def __init__(self, name, specs, junction=None, secs=((1, 1),), fixed=None):
        self.name, self.specs, self.junction, self.secs, self.fixed = name, list(specs), junction, list(secs), fixed
        self.pred = self.succ = None

    def at(self, end):
        return self.pred if end == "start" else self.succ

    def set(self, end, link):
        assert self.at(end) is None
        if end == "start":
            self.pred = link
        else:
            self.succ = link

    @property
    def length(self):
        return sum(ref.local(s)[1] for s in self.specs)

    def end_from(self, start):
        for s in self.specs:
            start = ref.step(start, ref.local(s)[0])
        return start

    def start_from(self, end):
        for s in reversed(self.specs):
            end = ref.back(end, ref.local(s)[0])
        return end


class Net:
    def __init__(self, roads):
        self.roads = {r.name: r for r in roads}
        self.ids = {}
        self.refs = {}
        self.order = list(self.roads)

    def road_link(self, u, ue, v, ve, declared="both"):
        """Two ordinary roads meet."""
        if declared in ("both", "first"):
            self.roads[u].set(ue, ("road", v, ve, 0))
        if declared in ("both", "second"):
            self.roads[v].set(ve, ("road", u, ue, 0))

    def connect(self, c, pred, pe, succ, se, off_pred=0, off_succ=0):
        """Connecting road c from the end pe of road pred to the end se of road succ."""
        C = self.roads[c]
        C.set("start", ("road", pred, pe, off_pred))
        C.set("end", ("road", succ, se, off_succ))
        for r, e in ((pred, pe), (succ, se)):
            if self.roads[r].at(e) is None:
                self.roads[r].set(e, ("junction", C.junction))

    def joints(self):
        """(u, end of u, v, end of v, offset): every declared road link of u."""
        for r in self.roads.values():
            for e in ENDS:
                l = r.at(e)
                if l and l[0] == "road":
                    yield r.name, e, l[1], l[2], l[3]

    def anchors(self):
        f = {r.name: r.fixed for r in self.roads.values() if r.fixed is not None}
        if not f:
            f = {next(n for n in self.order if self.roads[n].junction is None): (0.0, 0.0, 0.0)}
        return f

    def placement(self):
        """name -> start pose, following the declared links from the anchors; roads out of reach are missing."""
        pos = dict(self.anchors())
        js = list(self.joints())
        todo = list(pos)
        while todo:
            a = todo.pop()
            for u, ue, v, ve, off in js:
                if u == a and v not in pos:
                    p = pos[u] if ue == "start" else self.roads[u].end_from(pos[u])
                    p = ref.left(p, -3.0 * off)
                    if ue == ve:
                        p = ref.rev(p)
                    pos[v] = p if ve == "start" else self.roads[v].start_from(p)
                    todo.append(v)
                elif v == a and u not in pos:
                    p = pos[v] if ve == "start" else self.roads[v].end_from(pos[v])
                    if ue == ve:
                        p = ref.rev(p)
                    p = ref.left(p, 3.0 * off)
                    pos[u] = p if ue == "start" else self.roads[u].start_from(p)
                    todo.append(u)
        return pos

    # ---- identifiers ----
    def number(self, ch, dev=True, styles=("int", "text", "reference text", "id text", "from zero", "large", "numpy")):
        pick = ch.dev if dev else ch.free
        style = pick("ids", list(styles))
        base = {"from zero": 0, "large": 1000003}.get(style, 1)
        names = list(self.roads)
        if pick("numbering", ["up", "down"]) == "down":  # neither insertion nor numeric order needs to follow the links
            names.reverse()
        for i, n in enumerate(names):
            self.ids[n] = base + i
        js = sorted({r.junction for r in self.roads.values() if r.junction is not None})
        if js:
            j0 = pick("junction ids", ["unused", "road ids", "zero"])
            for i, j in enumerate(js):
                self.ids["junction", j] = {"unused": 900 + i, "road ids": base + i, "zero": i}[j0]
        conv = lambda x: x
        if style == "numpy":
            import numpy as np
            conv = np.int64
        self.idv = (lambda n: str(self.ids[n])) if style in ("text", "id text") else (lambda n: conv(self.ids[n]))
        self.refv = (lambda n: str(self.ids[n])) if style in ("text", "reference text") else (lambda n: conv(self.ids[n]))
        return self

    # ---- construction ----
    def lanes(self, P, r):
        ls = P.Lanes()
        for k, (nl, nr) in enumerate(r.secs):
            sec = P.LaneSection(k * r.length / len(r.secs), P.Lane())
            for _ in range(nl):
                sec.add_left_lane(P.Lane(a=3))
            for _ in range(nr):
                sec.add_right_lane(P.Lane(a=3))
            ls.add_lanesection(sec)
        return ls

    def road(self, P, name, links=True):
        r = self.roads[name]
        pv = P.PlanView(*r.fixed) if r.fixed is not None else P.PlanView()
        for s in r.specs:
            pv.add_geometry(ref.build(P, s))
        road = P.Road(self.idv(name), pv, self.lanes(P, r), road_type=-1 if r.junction is None else self.ids["junction", r.junction])
        if links:
            for e in ENDS:
                self.declare(P, road, name, e)
        return road

    def declare(self, P, road, name, e):
        l, add = self.roads[name].at(e), road.add_predecessor if e == "start" else road.add_successor
        if l is None:
            return
        if l[0] == "junction":
            add(P.ElementType.junction, self.refv(("junction", l[1])))
        elif l[3]:
            add(P.ElementType.road, self.refv(l[1]), getattr(P.ContactPoint, l[2]), lane_offset=l[3])
        else:
            add(P.ElementType.road, self.refv(l[1]), getattr(P.ContactPoint, l[2]))

    def build(self, P, order=None):
        self.order = list(order or self.order)
        odr = P.OpenDrive("net")
        roads = {}
        for n in self.order:
            roads[n] = self.road(P, n)
            odr.add_road(roads[n])
        return odr, roads

    def elements(self, doc):
        els = ref.road_elems(doc)
        return {n: els[str(self.ids[n])] for n in self.roads}

    def show(self):
        return "; ".join("%s%s pred=%s succ=%s" % (r.name, "" if r.junction is None else " (connecting)", r.pred, r.succ) for r in self.roads.values())


# ---- judges ----

def check_joints(ch, net, els):
    """Every declared road link holds geometrically in the document (C06)."""
    ends = {n: ref.ends(e) for n, e in els.items()}
    size = max(max(abs(v) for p in ps for v in p[:2]) for ps in ends.values())
    for u, ue, v, ve, off in net.joints():
        a, b = ends[u][ENDS.index(ue)], ends[v][ENDS.index(ve)]
        want = ref.left(ref.rev(b) if ue == ve else b, 3.0 * off)
        ch.req(ref.same_pose(a, want, size, 1e-8, 1e-8), "%s of road %s at %s, but %s of road %s it is linked to%s is at %s [%s; added %s]", ue, u, ref.show(a), ve, v,
               " with lane offset %d" % off if off else "", ref.show(b), net.show(), net.order)
    ch.state(sorted((n, ref.show(p[0]), ref.show(p[1])) for n, p in ends.items()))


def check_placement(ch, net, els):
    """Every road is where the anchors and the declared links put it (C07)."""
    want = net.placement()
    assert len(want) == len(net.roads), (want, net.show())
    size = max(max(abs(v) for v in p[:2]) for p in want.values()) + max(r.length for r in net.roads.values())
    for n, p in want.items():
        got, end = ref.ends(els[n])
        ch.req(ref.same_pose(got, p, size, 1e-8, 1e-8), "road %s starts at %s instead of %s [%s; added %s]", n, ref.show(got), ref.show(p), net.show(), net.order)
        e = net.roads[n].end_from(p)
        ch.req(ref.same_pose(end, e, size, 1e-8, 1e-8), "road %s ends at %s instead of %s", n, ref.show(end), ref.show(e))
        if net.roads[n].fixed is not None:
            f = net.roads[n].fixed
            ch.req(got == tuple(float(v) for v in f), "road %s has the fixed start %s, but is written at %s", n, f, got)
    ch.state(sorted((n, ref.show(ref.ends(e)[0])) for n, e in els.items()))


# ---- shapes ----
GEOMS = [(("line", 50.0),), (("arcA", 0.02, 1.0),), (("spL", 0.001, -0.03, 40.0),), (("line", 10), ("arcL", -0.04, 30), ("spA", 0, 0.03, 0.4)),
         (("polyN", (0, 20, 5, -2, 0, 0, 8, -3)),), (("arcL", 0.05, 20), ("polyA", (0, 1, 0, -1e-4, 0, 0, 0.01, -1e-5), 20.0))]
EXTREME = [(("line", 1234567.8912345),), (("line", 1e-6),), (("line", 1e8 / 3),), (("arcA", 1e-5, 1.0),), (("arcL", -20, 0.9),), (("spA", 1e-9, 1e-4, 0.5), ("line", 1e-3)), (("line", 5e4 / 3), ("polyA", (0, 1, 0, 0, 0, 0, 0, 5e-6), 100.0))]
FAR = [None, (1e7 / 3, -2e6, 50.3), (1e-7, -1e-9, -1e-6)]
POSES = [None, (0, 0, 0), (100.0, -50.5, 2.2), (-7, 3, -PI / 2)]


def geoms(ch, names, dev=True, alphabet=GEOMS):
    return {n: (ch.dev if dev else ch.free)("geometry of " + n, alphabet) for n in names}


def ordering(ch, net, free=True):
    net.order = (ch.perm if free else ch.devperm)("added", list(net.roads))
    return net


def way(ch, name, dev=False):
    """(first end, second end) of a road run through along a chain"""
    return ENDS if (ch.dev if dev else ch.free)("direction of " + name, ["forward", "backward"]) == "forward" else ENDS[::-1]


def chain(ch, n, declared=("both",), secs=None):
    names = "ABCDE"[:n]
    g = geoms(ch, names)
    net = Net([R(x, g[x], secs=secs[x] if secs else ((1, 1),)) for x in names])
    w = {x: way(ch, x) for x in names}
    for a, b in zip(names, names[1:]):
        net.road_link(a, w[a][1], b, w[b][0], ch.dev("declared", list(declared)))
    return net


def extreme(ch, n, far=True):
    """A chain of very long, very short and nearly straight roads, possibly far away from the origin."""
    names = "ABCDE"[:n]
    net = Net([R(x, ch.free("geometry of " + x, EXTREME)) for x in names])
    for a, b in zip(names, names[1:]):
        net.road_link(a, "end", b, ch.free(b + " joins with", ENDS) if b == names[-1] else "start", "both")
    if far:
        net.roads["A"].fixed = ch.free("A starts at", FAR)
    return net


def star(ch, n, declared=("both",)):
    """One road with n - 1 others: two at its ends, further ones behind those."""
    return chain(ch, n, declared)


def through_junction(ch, tail=True, offsets=(0, -1, 2)):
    """A - C - B, optionally with D behind B and a second connecting road E from A to F."""
    names = ["A", "C", "B"] + (["D"] if tail else [])
    g = geoms(ch, names)
    net = Net([R(x, g[x], junction="J" if x == "C" else None) for x in names])
    w = {x: way(ch, x) for x in names}
    first, second = (("A", w["A"][1]), ("B", w["B"][0]))
    if w["C"] == ENDS:
        net.connect("C", first[0], first[1], second[0], second[1], ch.dev("offset at start", list(offsets)), ch.dev("offset at end", list(offsets)))
    else:
        net.connect("C", second[0], second[1], first[0], first[1], ch.dev("offset at start", list(offsets)), ch.dev("offset at end", list(offsets)))
    if tail:
        net.road_link("B", w["B"][1], "D", w["D"][0])
    return net


def hub(ch, k=2, offsets=(0, -1, 2)):
    """A's end leads through k connecting roads to k roads (a road split or merge)."""
    names = ["A"] + ["C%d" % i for i in range(k)] + ["B%d" % i for i in range(k)]
    g = geoms(ch, names)
    net = Net([R(x, g[x], junction="J" if x[0] == "C" else None) for x in names])
    ae = ch.free("junction at", ["end", "start"])
    for i in range(k):
        c, b = "C%d" % i, "B%d" % i
        be = ch.free("%s joins at" % b, ["start", "end"])
        o1, o2 = ch.dev("offset at start", list(offsets)), ch.dev("offset at end", list(offsets))
        if ch.free("direction of " + c, ["from A", "to A"]) == "from A":
            net.connect(c, "A", ae, b, be, o1, o2)
        else:
            net.connect(c, b, be, "A", ae, o1, o2)
    return net


def two_junctions(ch, offsets=(0, -1)):
    """A - C - B - E - D with two junctions, B having one at each end."""
    names = ["A", "C", "B", "E", "D"]
    g = geoms(ch, names)
    net = Net([R(x, g[x], junction={"C": "J", "E": "K"}.get(x)) for x in names])
    w = {x: way(ch, x, dev=x in "AD") for x in names}
    for a, c, b in (("A", "C", "B"), ("B", "E", "D")):
        o1, o2 = ch.dev("offset at start", list(offsets)), ch.dev("offset at end", list(offsets))
        if w[c] == ENDS:
            net.connect(c, a, w[a][1], b, w[b][0], o1, o2)
        else:
            net.connect(c, b, w[b][0], a, w[a][1], o1, o2)
    return net


def ring(ch, n, connecting=()):
    """n roads that close a circle; those in `connecting` are connecting roads."""
    names = "ABCDE"[:n]
    kind = ch.dev("closed by", ["arcs", "corners"])
    mk = lambda s: (("arcA", s * 0.02, s * 2 * PI / n),) if kind == "arcs" else (("line", 30), ("arcA", s * 0.1, s * 2 * PI / n))
    w = {x: way(ch, x) for x in names}
    specs = {x: mk(1) if w[x] == ENDS else tuple(reversed(mk(-1))) for x in names}
    net = Net([R(x, specs[x], junction="J" if x in connecting else None) for x in names])
    for i, a in enumerate(names):
        b = names[(i + 1) % n]
        if a not in connecting and b not in connecting:
            net.road_link(a, w[a][1], b, w[b][0])
    for x in connecting:
        i = names.index(x)
        a, b = names[i - 1], names[(i + 1) % n]
        if w[x] == ENDS:
            net.connect(x, a, w[a][1], b, w[b][0])
        else:
            net.connect(x, b, w[b][0], a, w[a][1])
    return net


def long_chain(ch, lengths=(9, 30), kinds=("roads", "junctions"), secs=((1, 1),)):
    """Many roads in a row (with a connecting road between every two ordinary ones), added in systematic orders."""
    n, kind = ch.free("roads", list(lengths)), ch.free("kind", list(kinds))
    names = ["R%02d" % i for i in range(n + 1 - n % 2)]
    conn = names[1::2] if kind == "junctions" else []
    w = ch.free("directions", ["forward", "backward", "alternating", "one turned"])
    turned = lambda i: {"forward": False, "backward": True, "alternating": i % 2 == 1, "one turned": i == n // 2}[w]
    way = {x: ENDS[::-1] if turned(i) else ENDS for i, x in enumerate(names)}
    net = Net([R(x, GEOMS[i % 3], junction="J%d" % i if x in conn else None, secs=secs) for i, x in enumerate(names)])
    for i, (a, b) in enumerate(zip(names, names[1:])):
        if a not in conn and b not in conn:
            net.road_link(a, way[a][1], b, way[b][0])
    for c in conn:
        i = names.index(c)
        a, b = names[i - 1], names[i + 1]
        ends = (a, way[a][1], b, way[b][0])
        net.connect(c, *(ends if way[c] == ENDS else ends[2:] + ends[:2]))
    m = len(names) // 2
    orders = {"up": names, "down": names[::-1], "even first": names[::2] + names[1::2], "odd first": names[1::2] + names[::2], "odd last, down": names[::-2] + names[-2::-2],
              "from the middle": sorted(names, key=lambda x: abs(names.index(x) - m)), "to the middle": sorted(names, key=lambda x: -abs(names.index(x) - m)),
              "second last": names[:1] + names[2:] + names[1:2], "third first": names[2:3] + names[3:] + names[:2][::-1]}
    net.order = orders[ch.free("added", list(orders))]
    return net


def crossing(ch, k=3):
    """k roads around one junction with a connecting road for every pair, closing consistently: straight roads and arcs around a regular centre."""
    names = "ABCD"[:k]
    conns = [a + b for a, b in itertools.combinations(names, 2)]
    w = {x: ch.free("junction side of " + x, ["start", "end"]) for x in names}
    roads = [R(x, (("line", 40),)) for x in names]
    for c in conns:
        i, j = names.index(c[0]), names.index(c[1])
        turn = (2 * PI * (j - i) / k - PI)
        import math
        if abs(turn) < 1e-9:
            sp = (("line", 20.0),)
        else:
            # an arc tangent to both rays at distance 10 from the centre: radius 10 * tan(angle between rays / 2)
            rad = 10 * math.tan((PI - abs(turn)) / 2)
            s = 1 if turn > 0 else -1
            sp = (("arcA", s / rad, turn),)
        roads.append(R(c, sp, junction="J"))
    net = Net(roads)
    for c in conns:
        if ch.dev("direction of " + c, ["forward", "backward"]) == "forward":
            net.connect(c, c[0], w[c[0]], c[1], w[c[1]])
        else:
            r = net.roads[c]
            r.specs = [s if s[0] == "line" else ("arcA", -s[1], -s[2]) for s in r.specs]
            net.connect(c, c[1], w[c[1]], c[0], w[c[0]])
    return net


def tree(ch, steps, offsets=(0,), kinds=("road", "junction"), geoms=True):
    """All networks without rings: A, and `steps` more ordinary roads, each joined to any end of the network so far, directly or through a connecting road."""
    net = Net([R("A", ch.dev("geometry of A", GEOMS) if geoms else GEOMS[0])])
    jn = {}
    for i in range(steps):
        b, c = "BDFH"[i], "CEGI"[i]
        kind = ch.free("%s joins by" % b, list(kinds))
        cand = [(n, e) for n, r in net.roads.items() if r.junction is None for e in ENDS if r.at(e) is None or (kind == "junction" and (n, e) in jn)]
        if not cand:
            from .engine import Skip
            raise Skip()
        u, ue = ch.free("%s joins at" % b, cand)
        ve = ch.free("%s joins by its" % b, list(ENDS)[::-1])
        net.roads[b] = R(b, ch.dev("geometry of " + b, GEOMS) if geoms else GEOMS[i % 3])
        if kind == "road":
            net.road_link(u, ue, b, ve)
            continue
        j = jn.get((u, ue), "J%d" % i)
        net.roads[c] = R(c, ch.dev("geometry of " + c, GEOMS[1:] + GEOMS[:1]) if geoms else GEOMS[(i + 1) % 3], junction=j)
        o = ch.dev("offset at start", list(offsets)), ch.dev("offset at end", list(offsets))
        ends = (u, ue, b, ve) if ch.free("direction of " + c, ["there", "back"]) == "there" else (b, ve, u, ue)
        net.connect(c, *ends, *o)
        jn[u, ue] = jn[b, ve] = j
    net.order = list(net.roads)
    return net


def rivals(ch):
    """Two roads that both claim to join one end of a third, which declares one of them or none."""
    side = ch.free("shared", ["start", "end"])
    other = {"start": "end", "end": "start"}[side]
    net = Net([R(x, GEOMS[0]) for x in "BAX"])
    for x in "AX":
        e = ch.free("end of " + x, [other, side])
        if ch.free(x + " declares", [True, False]):
            net.roads[x].set(e, ("road", "B", side, 0))
        else:
            net.roads[x].claim = e
    mine = ch.free("B declares", ["A", "X", None])
    if mine:
        r = net.roads[mine]
        net.roads["B"].set(side, ("road", mine, next((e for e in ENDS if r.at(e)), None) or r.claim, 0))
    return net


def claims(ch, n=3):
    """Every way in which n roads can declare links to each other's ends, mutual or not."""
    names = "ABC"[:n]
    net = Net([R(x, GEOMS[0]) for x in names])
    for x in names:
        for e in ENDS[::-1]:
            y = ch.dev("%s of %s" % (e, x), [None] + [(y, f) for y in names if y != x for f in ENDS])
            if y:
                net.roads[x].set(e, ("road", y[0], y[1], 0))
    return net
