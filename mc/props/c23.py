"""Roads accept at most one predecessor, one successor, two neighbours."""
from ..engine import Scenario, Violation
from .. import ref, nets
from ..nets import R, Net

IDS = [2, "7", 0, "", "a b", -1]


def calls(P, full):
    """(kind, element type, id, contact point or direction, lane offset)"""
    out = []
    for kind in ("predecessor", "successor"):
        for et, cp in [("road", "start"), ("road", "end"), ("junction", None)]:
            out.append((kind, et, None, cp, 0))
        if full:
            out += [(kind, None, None, None, 0), (kind, "road", None, "end", 2), (kind, "junction", None, "start", 0)]
    for et, d in [("road", "same"), ("junction", "opposite"), ("road", None)] if not full else [("road", "same"), ("road", "opposite"), ("junction", "same"), (None, "opposite"), ("road", None), ("junction", None)]:
        out.append(("neighbor", et, None, d, 0))
    return out


def apply(P, road, c, how="positional"):
    kind, et, rid, x, off = c
    e = getattr(P.ElementType, et) if et else None
    if kind == "neighbor":
        d = getattr(P.Direction, x) if x else None
        return road.add_neighbor(e, rid, d) if how == "positional" else road.add_neighbor(element_type=e, element_id=rid, direction=d)
    add = getattr(road, "add_" + kind)
    p = getattr(P.ContactPoint, x) if x else None
    if how != "positional":
        return add(element_type=e, element_id=rid, contact_point=p, lane_offset=off)
    return add(e, rid, p, off) if off else add(e, rid, p) if p is not None else add(e, rid)


def written(c):
    kind, et, rid, x, off = c
    out = {"elementType": et, "elementId": str(rid)} if et else {"id": str(rid)}
    if x:
        out["direction" if kind == "neighbor" else "contactPoint"] = x
    return kind, out


def invalid(c):
    return c[0] == "neighbor" and c[3] is None


LIMIT = {"predecessor": 1, "successor": 1, "neighbor": 2}


def roads(P):
    pv = P.PlanView()
    pv.add_geometry(P.Line(5))
    ls = P.Lanes()
    ls.add_lanesection(P.LaneSection(0, P.Lane()))
    return {"straight": lambda: P.create_straight_road(1), "connecting": lambda: P.create_straight_road(1, junction=4), "curved": lambda: P.create_cloth_arc_cloth(0.1, 0.3, 0.2, "1", 3),
            "by hand": lambda: P.Road("r", pv, ls, name="n", rule="RHT")}


def declare(ch, P, road, todo, look):
    want = []
    for n, c in enumerate(todo):
        before = ref.dump(road.get_element()) if look else None
        full = invalid(c) or sum(w[0] == c[0] for w in want) >= LIMIT[c[0]]
        ch.op()
        try:
            apply(P, road, c, "keywords" if n % 2 else "positional")
        except ValueError:
            if not full:
                raise Violation("declaration %s of %s is refused" % (n + 1, todo))
            ch.outcome("refused " + c[0])
            ch.req(before is None or ref.dump(road.get_element()) == before, "the refused declaration %s of %s changed the road", n + 1, todo)
            continue
        ch.req(not full, "declaration %s of %s is accepted", n + 1, todo)
        want.append(c)
    es = road.get_element().findall("link")
    ch.req(len(es) == 1, "%d link elements", len(es))
    got = [(e.tag, dict(e.attrib)) for e in es[0]]
    ch.req(got == [written(w) for w in want], "after %s the links are %s", todo, got)
    ch.state(got)


def sequences(ch, P):
    """All sequences of declarations."""
    kind = ch.dev("road", ["straight", "connecting", "curved", "by hand"])
    cs = calls(P, False)
    todo = []
    for k in range(3 + ch.bound):
        i = ch.free("declaration %d" % (k + 1), list(range(-1, len(cs))) if k else list(range(len(cs))))
        if i < 0:
            break
        c = cs[i]
        todo.append(c[:2] + (ch.dev("id", IDS) if k < 2 else 10 + k,) + c[3:])
    declare(ch, P, roads(P)[kind](), todo, ch.dev("look in between", [True, False]))


def arguments(ch, P):
    """All pairs of declarations of one kind with all arguments, between others."""
    cs = calls(P, True)
    a = ch.free("first", cs)
    b = ch.free("second", [c for c in cs if c[0] == a[0]])
    ida, idb = ch.free("first id", IDS), ch.free("second id", IDS)
    others = [c for c in calls(P, False) if c[0] != a[0]]
    mid = ch.dev("between", [None] + others)
    todo = [a[:2] + (ida,) + a[3:]] + ([mid[:2] + (5,) + mid[3:]] if mid else []) + [b[:2] + (idb,) + b[3:], a[:2] + ("third",) + a[3:]]
    declare(ch, P, P.create_straight_road(1), todo, True)


def many(ch, P):
    """Long runs of the same declaration."""
    c = ch.free("declaration", calls(P, True))
    n = ch.free("times", [2, 3, 5, 9, 40])
    d = ch.free("also", [None] + calls(P, False))
    todo = []
    for i in range(n):
        todo.append(c[:2] + (i,) + c[3:])
        if d:
            todo.append(d[:2] + (100 + i,) + d[3:])
    declare(ch, P, P.create_straight_road(1), todo, ch.free("look in between", [True, False]))


def together(ch, P):
    """Declarations of several roads do not count for each other."""
    rs = [P.create_straight_road(i) for i in range(3)]
    todo = [[], [], []]
    cs = [("predecessor", "road", 8, "end", 0), ("successor", "junction", 9, None, 0), ("neighbor", "road", 7, "same", 0), ("neighbor", "road", 7, None, 0)]
    for k in range(4 + ch.bound):
        i, c = ch.free("road", [0, 1]), ch.free("declaration", cs)
        full = invalid(c) or sum(t[0] == c[0] for t in todo[i]) >= LIMIT[c[0]]
        c = c[:2] + (k,) + c[3:]
        try:
            apply(P, rs[i], c)
            ch.req(not full, "declaration %s is accepted after %s", c, todo[i])
            todo[i].append(c)
        except ValueError:
            ch.req(full, "declaration %s is refused after %s", c, todo[i])
        ch.op()
    for r, t in zip(rs, todo):
        got = [(e.tag, dict(e.attrib)) for e in r.get_element().find("link")]
        ch.req(got == [written(w) for w in t], "after %s the links are %s", t, got)
        ch.state(got)


def consequences(ch, P):
    """A refused declaration does not move or link anything either."""
    net = nets.through_junction(ch, tail=False)
    net.number(ch)

    def build(extra):
        odr, rs = net.build(P)
        if extra:
            n, kind, c = extra
            try:
                apply(P, rs[n], (kind,) + c)
            except ValueError:
                pass
            else:
                raise Violation("a second %s of road %s is accepted [%s]" % (kind, n, net.show()))
        try:
            odr.adjust_roads_and_lanes()
        except P.exceptions.NotSameAmountOfLanesError:
            ch.outcome("lanes")
            return None
        return ref.dump(odr.get_element())
    kinds = [(n, k) for n in net.roads for k, e in (("predecessor", "start"), ("successor", "end")) if net.roads[n].at(e)]
    n, kind = ch.free("further declaration", kinds)
    cs = [("road", net.refv(m), cp, off) for m in net.roads if m != n for cp in ("start", "end") for off in (0, 1)] + [("junction", 44, None, 0)]
    c = ch.free("of", cs)
    a, b = build(None), build((n, kind, c))
    ch.op(len(net.roads) * 2)
    ch.state(a)
    ch.req(a == b, "a refused %s %s of road %s changes the adjusted network [%s]", kind, c, n, net.show())


SCENARIOS = [Scenario("sequences", sequences, 1, 2), Scenario("arguments", arguments, 1, 1), Scenario("many", many, 0, 0), Scenario("together", together, 0, 1), Scenario("consequences", consequences, 1, 2)]
