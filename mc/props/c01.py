"""Forward evaluation against the written curve."""
import numpy as np
from ..engine import Scenario
from .. import ref, geo
from ..ref import PI

KS = [0.05, -0.05, 2, -2.0, 0.5, 1e-3, -1e-3, -0.3, 1, 1e-6]
LS = [10, 0.1, 1.0, 62.83, 100.0, 1000, 3.5]
CS = [0, 0.01, -0.01, 0.05, -0.05, 0.2, -0.2, 1e-9, -1e-9]
HS = [0, 0.5, PI / 2, PI, -PI / 2, -2.5, 7.5, -12.0, 1e-3]
XY = [(0, 0), (10.0, -20.0), (-3, 7), (1e4, -2e4)]


def judge(ch, P, g, pose, want_length=None):
    e = g.get_end_data(*pose)
    elem = g.get_element()
    ch.op(2)
    kind, at = ref.curve_of(elem)
    L = float(e[3])
    d = ref.curve_delta(kind, at, L)
    exp = ref.step(tuple(map(float, pose)), d)
    got = tuple(float(v) for v in e[:3])
    ch.state((kind, sorted(at.items()), L, got))
    ch.req(ref.same_pose(got, exp, L, 1e-8, 1e-8), "%s %s from %s over length %.9g: reports %s, the written curve leads to %s",
           kind, dict(elem.attrib), ref.show(tuple(map(float, pose))), L, ref.show(got), ref.show(exp))
    turn = got[2] - float(pose[2])
    if kind in ("arc", "spiral"):  # not merely modulo a turn
        ch.req(abs(turn - d[2]) < 1e-6 * (1 + abs(d[2])), "%s turns by %.9g, reports %.9g", kind, d[2], turn)
    if kind == "paramPoly3" and at["pRange"] == "normalized":
        want = ref.poly_length(at)
        ch.req(abs(want - L) <= 1e-6 * (1 + want), "normalized polynomial %s has length %.9g, reported %.9g", dict(elem.attrib), want, L)
    ch.outcome(kind)


def pose_of(ch):
    x, y = ch.free("position", XY)
    return x, y, ch.free("heading", HS)


def catalogue(ch, P):
    spec = ch.free("geometry", geo.SPECS)
    pose = pose_of(ch)
    num = ch.free("numbers", [None, np.float64])
    if num:
        pose = tuple(num(v) for v in pose)
    judge(ch, P, ref.build(P, spec), pose)


def arcs(ch, P):
    k = ch.free("curvature", KS)
    how = ch.free("by", ["length", "angle"])
    L = ch.free("length", LS)
    g = P.Arc(k, length=L) if how == "length" else P.Arc(k, angle=k * L)
    judge(ch, P, g, pose_of(ch))


def spirals(ch, P):
    k0, k1, L = ch.free("k0", CS), ch.free("k1", CS), ch.free("length", [10, 1, 50.0])
    judge(ch, P, P.Spiral(k0, k1, length=L), pose_of(ch))


def slow(ch, P):
    """Curvatures that change the direction only over long distances."""
    ks = [0, 1e-3, -1e-3, 1e-4, -1e-5, 1e-6, 1e-7, -1e-9]
    judge(ch, P, P.Spiral(ch.free("k0", ks), ch.free("k1", ks), length=ch.free("length", [100, 1000.0, 4000])), (ch.free("x", [0, 1e4]), 5.0, ch.free("heading", HS[:5])))


NEAR = [1e-1, 1e-2, 1e-3, -1e-4, 1e-5, 1e-6, -1e-7, 1e-8, 1e-9, 1e-10, -1e-12, 1e-15, 2.3e-16]


def near(ch, P):
    """The curvature of a spiral that is nearly an arc (k0), or nearly a line (k0 = 0)."""
    k0 = ch.free("k0", [0.3, -0.05, 1e-3, 1e-6, 2.0, 0, 30])
    k1 = (k0 or 1e-3) * ch.free("difference", NEAR) + k0
    return k0, k1


def nearly_arcs(ch, P):
    k0, k1 = near(ch, P)
    L = ch.free("length", [1e-3, 1, 20, 1000.0])
    how = ch.free("by", ["length", "angle", "cdot"])
    if k0 == k1 or abs(k0 * L) > 300:
        return
    if how == "angle" and abs(k0 + k1) < 1e-9 or how == "cdot" and abs(k1 - k0) < 1e-12 * abs(k0 or 1):
        return
    g = P.Spiral(k0, k1, length=L) if how == "length" else P.Spiral(k0, k1, angle=(k0 + k1) / 2 * L) if how == "angle" else P.Spiral(k0, k1, cdot=(k1 - k0) / L)
    judge(ch, P, g, ch.free("start", [(0, 0, 0), (10.0, -20.0, -2.5)]))


def nearly_lines(ch, P):
    k = ch.free("curvature", [1e-7, -1e-8, 1e-10, -1e-12, 1e-14, 1e-15, 1e-17, -1e-20, 1e-100, 1e-300])
    L = ch.free("length", LS)
    how = ch.free("by", ["length", "angle"])
    judge(ch, P, P.Arc(k, length=L) if how == "length" else P.Arc(k, angle=k * L), pose_of(ch))


def polys(ch, P):
    c = [ch.dev("coeff%d" % i, o) for i, o in enumerate(([0, 1.5, -2], [10, 1, -4], [0, 3, -2.5], [0, 2, -1], [0, -1, 2], [0, 4, -3.0], [0, 5, -5], [0, 1.25, -2]))]
    rng = ch.free("range", ["normalized", "arcLength"])
    if abs(c[1] + 2 * c[2] + 3 * c[3]) < 1e-9 and abs(c[5] + 2 * c[6] + 3 * c[7]) < 1e-9:
        return
    g = P.ParamPoly3(*c) if rng == "normalized" else P.ParamPoly3(*c, prange="arcLength", length=ch.free("length", [1, 7.5]))
    judge(ch, P, g, pose_of(ch))


def lines(ch, P):
    judge(ch, P, P.Line(ch.free("length", LS + [1e-6, 1e5])), pose_of(ch))


SCENARIOS = [Scenario("catalogue", catalogue), Scenario("lines", lines), Scenario("arcs", arcs), Scenario("spirals", spirals), Scenario("slow", slow), Scenario("nearly-arcs", nearly_arcs), Scenario("nearly-lines", nearly_lines), Scenario("polynomials", polys, 2, 4)]
ASSUMPTIONS = ["positions are compared to 1e-8 of the size of the numbers involved, headings to 1e-8 rad"]
