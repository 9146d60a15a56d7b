"""Signals and objects never share an id."""
from ..engine import Scenario
from .. import ref

IDS = [None, 0, 1, "1", "0", 2, "7"]
MORE = [None, "a", "A", 3, -1, "-1", "", "00", 1.0, "1.0", 10, "x y", "7", "7 ", " 7", "07", "0" * 300, "\u00e9"]


def mk(P, kind, i, tag):
    kw = {} if i is None else {"id": i}
    return P.Signal(tag, 0, "se", "274", **kw) if kind == "signal" else P.Object(tag, 1, P.ObjectType.tree, **kw)


class World:
    def __init__(self, ch, P, roads=2, adjusted=False, secs=1):
        self.ch, self.P = ch, P
        self.odr = P.OpenDrive("x")
        self.roads = []
        for k in range(roads):
            pv = P.PlanView(100 * k, 0, 0)
            pv.add_geometry(P.Line(30))
            ls = P.Lanes()
            for j in range(secs):
                s = P.LaneSection(30.0 * j / secs, P.Lane())
                s.add_left_lane(P.Lane(a=3))
                s.add_right_lane(P.Lane(a=3))
                ls.add_lanesection(s)
            r = P.Road(k + 1, pv, ls)
            self.odr.add_road(r)
            self.roads.append(r)
        if adjusted:
            self.odr.adjust_roads_and_lanes()
        self.ids = {"signal": [], "object": []}  # as written after the last step, by (road, position)

    def read(self):
        out = {"signal": {}, "object": {}}
        for k, r in enumerate(self.odr.get_element().findall("road")):
            for kind in out:
                for i, e in enumerate(r.findall("%ss/%s" % (kind, kind))):
                    out[kind][k, i] = e.get("id")
        return out

    def judge(self, before, added, step):
        """added: [(kind, road, explicit id)] in the order of addition"""
        now, ch = self.read(), self.ch
        ch.state(sorted((k, sorted(v.items())) for k, v in now.items()))
        for kind in now:
            ids = list(now[kind].values())
            ch.req(len(set(ids)) == len(ids), "%s: %s ids %s repeat", step, kind, ids)
            ch.req(all(i is not None and i != "None" for i in ids), "%s: %s without id (%s)", step, kind, ids)
            for at, i in before[kind].items():
                ch.req(now[kind].get(at) == i, "%s changes the id of an earlier %s from %s to %s", step, kind, i, now[kind].get(at))
            used = set(before[kind].values())
            n = {}
            for k2, road, explicit in added:
                if k2 != kind:
                    continue
                pos = n.get(road, sum(1 for (r, _) in before[kind] if r == road))
                n[road] = pos + 1
                got = now[kind].get((road, pos))
                ch.req(got is not None, "%s: added %s is not written", step, kind)
                if explicit is not None and str(explicit) not in used:
                    ch.req(got == str(explicit), "%s: explicit id %r of a %s is written as %s although no earlier %s has it (%s)", step, explicit, kind, got, kind, sorted(used))
                    ch.outcome("kept")
                else:
                    ch.outcome("generated" if explicit is None else "replaced")
                used.add(got)
        for kind in now:
            ch.req(len(now[kind]) == len(before[kind]) + sum(1 for a in added if a[0] == kind), "%s: %d %ss written instead of %d", step, len(now[kind]), kind, len(before[kind]) + sum(1 for a in added if a[0] == kind))
        return now


def add(w, road, elements, kind, style):
    r = w.roads[road]
    f = r.add_signal if kind == "signal" else r.add_object
    if style == "list":
        f(elements)
    else:
        for e in elements:
            f(e)


def singles(ch, P):
    """All sequences of single additions to two roads."""
    w = World(ch, P)
    n = 3 + (ch.bound > 1)
    cur = w.read()
    for k in range(n):
        kind = ch.free("element %d" % (k + 1), ["object", "signal"]) if k else "object"
        road = ch.dev("road", [0, 1])
        i = ch.free("id", IDS) if ch.bound < 9 else None
        add(w, road, [mk(P, kind, i, k + 1)], kind, ch.dev("added", ["single", "list"]))
        ch.op()
        cur = w.judge(cur, [(kind, road, i)], "step %d" % (k + 1))


def deep(ch, P):
    """Longer sequences of one class with few ids."""
    kind = ch.free("class", ["object", "signal"])
    w = World(ch, P)
    cur = w.read()
    for k in range(5 + (ch.bound > 1)):
        i = ch.free("id", [None, 0, "1", 2])
        road = k % 2
        add(w, road, [mk(P, kind, i, k + 1)], kind, "single")
        ch.op()
        cur = w.judge(cur, [(kind, road, i)], "step %d" % (k + 1))


def lists(ch, P):
    """Lists with ids that collide inside the list, with earlier and with later elements."""
    w = World(ch, P)
    cur = w.read()
    for k in range(2):
        kind = "object" if k == 0 else ch.free("class", ["object", "signal"])
        n = ch.free("length", [1, 2] if k else [0, 1, 2, 3])
        ids = [ch.free("id", [None, 1, "0"] if k else [None, 1, "1", 0]) for _ in range(n)]
        road = ch.dev("road", [0, 1])
        add(w, road, [mk(P, kind, i, k + 1) for i in ids], kind, "list")
        ch.op()
        cur = w.judge(cur, [(kind, road, i) for i in ids], "list %d %s" % (k + 1, ids))
    i = ch.free("single", [None, 0])
    add(w, 0, [mk(P, "object", i, 9)], "object", "single")
    w.judge(cur, [("object", 0, i)], "the last addition")


def strange(ch, P):
    """Unusual ids."""
    w = World(ch, P)
    cur = w.read()
    kind = ch.free("class", ["object", "signal"])
    for k in range(3):
        i = ch.free("id", MORE)
        add(w, 0, [mk(P, kind, i, k + 1)], kind, "single")
        ch.op()
        cur = w.judge(cur, [(kind, 0, i)], "step %d" % (k + 1))


def roadside(ch, P):
    """Roadside objects between single objects."""
    secs = ch.free("lane sections", [1, 2])
    w = World(ch, P, adjusted=True, secs=secs)
    cur = w.read()
    protos = [mk(P, "object", ch.free("prototype id", [None, 1, "0", "p"]), 0)]
    for k in range(3):
        what = ch.free("step %d" % (k + 1), ["roadside", "object", "signal"])
        if what == "roadside":
            side = ch.free("side", ["both", "left", "right"])
            road = ch.dev("road", [0, 1])
            proto = protos[0]
            before = proto.id
            w.roads[road].add_object_roadside(proto, 5, side=getattr(P.RoadSide, side))
            ch.req(proto.id == before, "the prototype's id changes from %s to %s", before, proto.id)
            added = [("object", road, before)] * (secs * (2 if side == "both" else 1))
        else:
            i = ch.free("id", [None, 1, 0])
            road = ch.dev("road", [0, 1])
            add(w, road, [mk(P, what, i, k + 1)], what, "single")
            added = [(what, road, i)]
        ch.op()
        cur = w.judge(cur, added, "step %d" % (k + 1))


def documents(ch, P):
    """Elements in different documents and generations: ids generated later never repeat."""
    kind = ch.free("class", ["object", "signal"])
    seen = {}
    worlds = [World(ch, P, roads=1) for _ in range(2)]
    curs = [w.read() for w in worlds]
    used = set()
    for k in range(4):
        d = ch.free("document", [0, 1])
        i = ch.free("id", [None, 1, "0"])
        add(worlds[d], 0, [mk(P, kind, i, k)], kind, "single")
        ch.op()
        now = worlds[d].read()
        for at, v in curs[d][kind].items():
            ch.req(now[kind].get(at) == v, "the id of an earlier %s changes from %s to %s", kind, v, now[kind].get(at))
        ids = list(now[kind].values())
        ch.req(len(set(ids)) == len(ids), "%s ids %s repeat", kind, ids)
        curs[d] = now
    ch.req(curs[1 - d] == worlds[1 - d].read(), "the other document changes")
    ids = list(curs[0][kind].values()) + list(curs[1][kind].values())
    ch.req(len(set(ids)) == len(ids), "%s ids %s repeat over the documents", kind, ids)
    ch.state(ids)


def many(ch, P):
    """Generated ids past one digit, with explicit ones sprinkled in."""
    kind = ch.free("class", ["object", "signal"])
    every = ch.free("explicit every", [2, 3, 5])
    base = ch.free("explicit from", [0, 4, 9, "10", 11])
    step = ch.free("step", [1, -1, 3])
    w = World(ch, P)
    cur = w.read()
    for k in range(14):
        i = None
        if k % every == every - 1:
            i = int(base) + step * (k // every)
            if isinstance(base, str):
                i = str(i)
        add(w, k % 2, [mk(P, kind, i, k)], kind, "single")
        ch.op()
        cur = w.judge(cur, [(kind, k % 2, i)], "step %d" % (k + 1))


def thousands(ch, P):
    """More than a thousand elements in one process, with explicit ids among them."""
    kind = ch.free("class", ["object", "signal"])
    n = ch.free("elements", [130, 300, 1100])
    style = ch.free("added", ["single", "list"])
    text = ch.free("explicit", [None, "tree", "12", 5000])
    w = World(ch, P)
    cur = w.read()
    made = [mk(P, kind, None, 1) for k in range(n)]
    add(w, 0, made, kind, style)
    ch.op(n)
    cur = w.judge(cur, [(kind, 0, None)] * n, "the first %d" % n)
    rest = [text, None, text, None]
    add(w, 1, [mk(P, kind, i, 1) for i in rest], kind, style)
    w.judge(cur, [(kind, 1, i) for i in rest], "those after %d" % n)


def unadded(ch, P):
    """Elements that are created but added late, or not at all, do not disturb; ids set after creation count."""
    w = World(ch, P)
    cur = w.read()
    kind = ch.free("class", ["object", "signal"])
    made = [mk(P, kind, ch.free("id %d" % k, [None, 1, "1", 2]), k) for k in range(3)]
    explicit = [m.id for m in made]
    order = ch.perm("added", [0, 1, 2])
    n = ch.free("number added", [1, 2, 3])
    for k in order[:n]:
        add(w, 0, [made[k]], kind, "single")
        cur = w.judge(cur, [(kind, 0, explicit[k])], "element %d" % k)
        ch.op()
    i = ch.free("last id", [None, 1, 2])
    add(w, 1, [mk(P, kind, i, 8)], kind, "single")
    w.judge(cur, [(kind, 1, i)], "the last addition")


SCENARIOS = [Scenario(n, f, 1, 2, fresh=True) for n, f in [("singles", singles), ("deep", deep), ("lists", lists), ("strange", strange), ("roadside", roadside), ("documents", documents), ("many", many), ("unadded", unadded), ("thousands", thousands)]]
ASSUMPTIONS = ["every element is added once", "ids that are written alike are the same id"]
