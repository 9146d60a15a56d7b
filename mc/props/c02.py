"""Backward evaluation is the inverse of forward evaluation."""
from ..engine import Scenario
from .. import ref, geo
from ..ref import PI
from .c01 import CS, KS, LS, XY, near


def inverse(ch, P, make, before=()):
    pose = tuple(float(v) for v in ch.free("position", XY)) + (ch.free("heading", [0, 0.5, PI / 2, PI, -2.5, 7.5]),)
    end = make().get_end_data(*pose)
    g = make()
    for b in before:
        if b == "forward":
            g.get_end_data(1, 2, 0.3)
        elif b == "backward":
            g.get_start_data(-4, 2.5, 1.1)
        else:
            g.get_element()
        ch.op()
    r = g.get_start_data(end[0], end[1], end[2] + PI)
    ch.op(2)
    got, want = tuple(map(float, r[:3])), ref.rev(pose)
    ch.state((got, float(r[3])))
    L = float(end[3])
    ch.req(abs(float(r[3]) - L) <= 1e-7 * (1 + abs(L)), "length %.9g forwards, %.9g backwards", L, float(r[3]))
    ch.req(ref.same_pose(got, want, L, 1e-8, 1e-8), "from %s forwards to %s, backwards to %s instead of %s", ref.show(pose),
           ref.show(tuple(map(float, end[:3]))), ref.show(got), ref.show(want))


def catalogue(ch, P):
    spec = ch.free("geometry", geo.SPECS)
    n = ch.free("before", [(), ("forward",), ("backward",), ("write",), ("forward", "backward"), ("backward", "backward")])
    inverse(ch, P, lambda: ref.build(P, spec), n)


def arcs(ch, P):
    k, L, how = ch.free("curvature", KS), ch.free("length", LS), ch.free("by", ["length", "angle"])
    before = ch.free("before", [(), ("forward",), ("backward",)])
    inverse(ch, P, (lambda: P.Arc(k, length=L)) if how == "length" else (lambda: P.Arc(k, angle=k * L)), before)


def spirals(ch, P):
    k0, k1, L = ch.free("k0", CS), ch.free("k1", CS), ch.free("length", [10, 1, 50.0])
    inverse(ch, P, lambda: P.Spiral(k0, k1, length=L))


def slow(ch, P):
    """Curvatures that change the direction only over long distances, or nearly not along the curve."""
    ks = [0, 1e-3, -1e-3, 1e-4, -1e-5, 1e-6, 1e-7, -1e-9]
    k0, k1, L = ch.free("k0", ks), ch.free("k1", ks), ch.free("length", [100, 1000.0, 4000])
    inverse(ch, P, lambda: P.Spiral(k0, k1, length=L))


def nearly(ch, P):
    """Spirals that are nearly arcs or lines, arcs that are nearly lines."""
    if ch.free("kind", ["spiral", "arc"]) == "arc":
        k, L = ch.free("curvature", [1e-7, -1e-8, 1e-10, -1e-12, 1e-14, 1e-15, 1e-17, -1e-20, 1e-100]), ch.free("length", LS)
        return inverse(ch, P, lambda: P.Arc(k, length=L))
    k0, k1 = near(ch, P)
    L = ch.free("length", [1e-3, 1, 20, 1000.0])
    if k0 == k1 or abs(k0 * L) > 300:
        return
    inverse(ch, P, lambda: P.Spiral(k0, k1, length=L))


def other_ways(ch, P):
    """Spirals by angle and by curvature rate, used before."""
    k0, k1, how = ch.free("k0", CS), ch.free("k1", CS), ch.free("by", ["angle", "cdot"])
    before = ch.free("before", [(), ("forward",), ("backward",)])
    if how == "angle":
        if k0 + k1 == 0:
            return
        a = ch.free("angle", [0.3, 1.2, 3.5]) * (1 if k0 + k1 > 0 else -1)
        if abs(a) / abs(k0 + k1) > 1e4:
            return
        inverse(ch, P, lambda: P.Spiral(k0, k1, angle=a), before)
    else:
        if abs(k1 - k0) < 1e-6:
            return
        L = ch.free("length", [5, 40.0])
        inverse(ch, P, lambda: P.Spiral(k0, k1, cdot=(k1 - k0) / L), before)


def polys(ch, P):
    c = [ch.dev("coeff%d" % i, o) for i, o in enumerate(([0, 1.5, -2], [10, 1, 4], [0, 3, -2.5], [0, 2, -1], [0, -1, 2], [0, 4, -3.0], [0, 5, -5], [0, 1.25, -2]))]
    rng = ch.free("range", ["normalized", "arcLength"])
    p = 1 if rng == "normalized" else ch.free("length", [1, 7.5])
    if abs(c[1] + 2 * c[2] * p + 3 * c[3] * p * p) < 1e-9 and abs(c[5] + 2 * c[6] * p + 3 * c[7] * p * p) < 1e-9:
        return
    inverse(ch, P, (lambda: P.ParamPoly3(*c)) if rng == "normalized" else (lambda: P.ParamPoly3(*c, prange="arcLength", length=p)))


def plan(ch, P):
    """The same through a plan view of one geometry: placing it from its end gives the start it was placed from."""
    spec = ch.free("geometry", geo.SPECS)
    pose = tuple(float(v) for v in ch.free("position", XY)) + (ch.free("heading", [0, 0.5, -2.5]),)
    a, b = P.PlanView(), P.PlanView()
    a.add_geometry(ref.build(P, spec))
    b.add_geometry(ref.build(P, spec))
    a.set_start_point(*pose)
    a.adjust_geometries()
    x, y, h = a.get_end_point()
    b.set_start_point(x, y, h + PI)
    b.adjust_geometries(True)
    ch.op(2)
    got = tuple(map(float, b.get_start_point()))
    ch.state(got)
    ch.req(ref.same_pose(got, pose, float(a.get_total_length()), 1e-8, 1e-8), "placed from its end at %s starts at %s, not %s", (x, y, h), ref.show(got), ref.show(pose))


SCENARIOS = [Scenario("catalogue", catalogue), Scenario("arcs", arcs), Scenario("spirals", spirals), Scenario("slow", slow), Scenario("nearly", nearly), Scenario("other-ways", other_ways), Scenario("polynomials", polys, 2, 4), Scenario("planview", plan)]
ASSUMPTIONS = ["positions are compared to 1e-8 of the size of the numbers involved, headings to 1e-8 rad"]
