"""Clothoid-arc-clothoid roads turn by the requested total."""
import math
from ..engine import Scenario
from .. import ref
from ..ref import PI
from .c14 import judge_lanes

KS = [0.1, 0.05, 1 / 8, 0.5, 1, 1 / 300.0, 0.01]
ANGLES = [PI / 6, PI / 4, 0.01, 1, PI / 2, 1.3, 2.5]


def written(ch, P, r):
    odr = P.OpenDrive("x")
    odr.add_road(r)
    odr.adjust_roads_and_lanes()
    ch.op(2)
    e = odr.get_element().find("road")
    ch.state(ref.dump(e))
    return e


def judge(ch, e, k, arc, cloth, start, rid, junction):
    """k > 0, angles of equal sign (or no arc)"""
    s = 1 if arc + cloth > 0 else -1
    ch.req(e.get("id") == str(rid) and e.get("junction") == str(junction), "road %s of junction %s instead of %s of %s", e.get("id"), e.get("junction"), rid, junction)
    gs = ref.read_geoms(e.find("planView"))
    ch.req([g[3] for g in gs] == ["spiral", "arc", "spiral"], "geometries are %s", [g[3] for g in gs])
    (_, p1, l1, _, a1), (_, p2, l2, _, a2), (_, p3, l3, _, a3) = gs
    ch.req(abs(a2["curvature"] - s * k) <= 1e-12, "the arc has curvature %s instead of %s", a2["curvature"], s * k)
    for what, got, want in (("first spiral ends", a1["curvEnd"], s * k), ("last spiral starts", a3["curvStart"], s * k)):
        ch.req(abs(got - want) <= 1e-12, "the %s with curvature %s next to an arc of %s", what, got, s * k)
    for what, got in (("first spiral starts", a1["curvStart"]), ("last spiral ends", a3["curvEnd"])):
        ch.req(abs(abs(got) - start) <= 1e-12 and (got * s > 0 or start <= 1e-8), "the %s with curvature %s instead of %s", what, got, s * start)
    tol = 4e-9 * (l1 + l3) + 1e-9
    turns = [ref.curve_delta(g[3], g[4], g[2])[2] for g in gs]
    for t, want, what in zip(turns, (cloth, arc, cloth), ("first spiral", "arc", "last spiral")):
        ch.req(abs(t - want) <= tol, "the %s turns by %.9g instead of %.9g", what, t, want)
    pose = p1
    for g, nxt in zip(gs, [p2, p3, None]):
        pose = ref.step(pose, ref.curve_delta(g[3], g[4], g[2]))
        if nxt:
            ch.req(ref.same_pose(pose, nxt, l1 + l2 + l3, 1e-7, 1e-7), "a geometry ends at %s, the next starts at %s", ref.show(pose), ref.show(nxt))
    ch.req(ref.adiff(pose[2] - p1[2], arc + 2 * cloth) <= 2 * tol + 1e-8, "the road turns by %.9g instead of %.9g", pose[2] - p1[2], arc + 2 * cloth)
    ch.req(abs(float(e.get("length")) - (l1 + l2 + l3)) <= 1e-8 * (1 + l1 + l2 + l3), "road length %s for geometries of %s", e.get("length"), l1 + l2 + l3)
    return gs


def angles(ch, P):
    """All curvatures and angles in both directions; the two directions mirror each other."""
    k, arc, cloth = ch.free("curvature", KS), ch.free("arc angle", ANGLES + [0]), ch.free("spiral angle", ANGLES)
    start = ch.dev("start curvature", [None, 1e-9, 0.001, 1e-6, 0])
    rid, junction = ch.dev("id", [1, 0, "77", 100]), ch.dev("junction", [None, 1, -1, 5, 0])
    n, width = ch.dev("lanes", [None, 0, 1, 2, 5, 12]), ch.dev("width", [None, 3, 2.5, 4.25])
    kw = dict(junction=junction, cloth_start=start, n_lanes=n, lane_offset=width)
    kw = {a: b for a, b in kw.items() if b is not None}
    if start is not None and start >= k:
        return
    both = []
    for s in (1, -1):
        e = written(ch, P, P.create_cloth_arc_cloth(k, s * arc, s * cloth, rid, **kw))
        both.append(judge(ch, e, k, s * arc, s * cloth, 1e-9 if start is None else start, rid, 1 if junction is None else junction))
        judge_lanes(ch, e, 1 if n is None else n, 1 if n is None else n, 3 if width is None else width)
    size = 1 + sum(g[2] for g in both[0])
    for (s1, p, l1, _, _), (s2, q, l2, _, _) in zip(*both):
        ch.req(abs(l1 - l2) <= 1e-8 * size and abs(p[0] - q[0]) <= 1e-7 * size and abs(p[1] + q[1]) <= 1e-7 * size and ref.adiff(p[2], -q[2]) <= 1e-7,
               "the roads of the positive and negative angles are no mirror images: %s at %s, %s at %s", l1, ref.show(p), l2, ref.show(q))


def placed(ch, P):
    """The same when the road is placed from its start or from its end, in a network, also twice."""
    k, arc, cloth = ch.free("curvature", KS[:3]), ch.free("arc angle", ANGLES[:3] + [0]), ch.free("spiral angle", ANGLES[:3])
    s = ch.free("direction", [1, -1])
    place = ch.free("placed", ["first", "from its start", "from its end", "at a fixed start", "between"])
    A, B = P.create_straight_road(1, 20), P.create_straight_road(2, 20)
    r = P.create_cloth_arc_cloth(k, s * arc, s * cloth, 3, junction=-1)
    odr = P.OpenDrive("x")
    if place in ("from its start", "between"):
        A.add_successor(P.ElementType.road, 3, P.ContactPoint.start)
        r.add_predecessor(P.ElementType.road, 1, P.ContactPoint.end)
        odr.add_road(A)
    if place == "from its end":
        B.add_predecessor(P.ElementType.road, 3, P.ContactPoint.end)
        r.add_successor(P.ElementType.road, 2, P.ContactPoint.start)
        odr.add_road(B)
    if place == "at a fixed start":
        r.planview.set_start_point(30, -20, 2)
    odr.add_road(r)
    if place == "between":
        B.add_predecessor(P.ElementType.road, 3, P.ContactPoint.end)
        r.add_successor(P.ElementType.road, 2, P.ContactPoint.start)
        odr.add_road(B)
    odr.adjust_roads_and_lanes()
    if ch.free("again", [False, True]):
        odr.get_element()
        odr.adjust_roads_and_lanes()
    els = ref.road_elems(odr.get_element())
    ch.op(len(els) + 2)
    ch.state(ref.dump(els["3"]))
    judge(ch, els["3"], k, s * arc, s * cloth, 1e-9, 3, -1)
    mid = ref.ends(els["3"])
    if place in ("from its start", "between"):
        ch.req(ref.same_pose(ref.ends(els["1"])[1], mid[0], 100, 1e-7, 1e-6), "the road starts at %s behind a road ending at %s", ref.show(mid[0]), ref.show(ref.ends(els["1"])[1]))
    if place in ("from its end", "between"):
        ch.req(ref.same_pose(ref.ends(els["2"])[0], mid[1], 100, 1e-7, 1e-6), "the road ends at %s before a road starting at %s", ref.show(mid[1]), ref.show(ref.ends(els["2"])[0]))


def right(ch, P):
    """A negative curvature requests a turn to the right, too."""
    k, arc, cloth, s = ch.free("curvature", KS), ch.free("arc angle", ANGLES + [0]), ch.free("spiral angle", ANGLES), ch.free("sign of the angles", [-1, 1])
    n = ch.free("lanes", [1, 3])
    start = ch.dev("start curvature", [None, 0, -1e-9])
    e = written(ch, P, P.create_cloth_arc_cloth(-k, s * arc, s * cloth, 4, n_lanes=n, **({} if start is None else {"cloth_start": start})))
    judge(ch, e, k, -arc, -cloth, 1e-9 if start is None else abs(start), 4, 1)
    judge_lanes(ch, e, n, n, 3)


SCENARIOS = [Scenario("angles", angles, 1, 2), Scenario("placed", placed), Scenario("right", right)]
ASSUMPTIONS = ["the spiral angle is not zero; the arc angle is zero or has the same sign", "the start curvature is below the arc curvature"]
