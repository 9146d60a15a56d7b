"""Length, angle and curvature rate describe the same curve; rejections."""
from ..engine import Scenario, Violation
from .. import ref
from ..ref import PI

POSES = [(0, 0, 0), (10.0, -20.0, 2.2), (-5, 3, -1.7)]
KS = [0.05, -0.05, 1, -2, 1e-3, -0.3]


def turn(ch, g, pose):
    e = g.get_end_data(*pose)
    r = g.get_start_data(e[0], e[1], e[2] + PI)
    ch.op(2)
    return float(e[2]) - pose[2], float(e[3]), float(r[3])


def near(a, b):
    return abs(a - b) <= 1e-9 * (1 + abs(a))


def arc(ch, P):
    k = ch.free("curvature", KS)
    a = ch.free("|angle|", [0.5, PI / 2, PI, 4.0, 2 * PI, 7.0, 1e-4, 1]) * (1 if k > 0 else -1)
    pose = ch.free("pose", POSES)
    t, L, L2 = turn(ch, P.Arc(k, angle=a), pose)
    ch.state((k, a, t, L))
    ch.req(near(t, a), "arc of curvature %s given angle %.9g turns by %.9g", k, a, t)
    ch.req(near(L, abs(a / k)) and near(L2, L), "arc of curvature %s given angle %.9g has length %.9g / %.9g", k, a, L, L2)
    t2, M, M2 = turn(ch, P.Arc(k, length=abs(a / k)), pose)
    ch.req(near(t2, a) and near(M, abs(a / k)) and near(M2, M), "arc of curvature %s given length %.9g turns by %.9g over %.9g / %.9g", k, abs(a / k), t2, M, M2)


def same_sign(ch):
    s = ch.free("side", [1, -1])
    a = ch.free("k0", [0, 0.02, 0.05, 0.1, 1e-9])
    b = ch.free("k1", [0, 0.02, 0.05, 0.1, 1e-9])
    return s * a, s * b, s


def spiral_angle(ch, P):
    k0, k1, s = same_sign(ch)
    a = ch.free("angle", [0.3, PI / 4, 1, 2.5]) * ch.free("given sign", [s, -s])
    pose = ch.free("pose", POSES)
    if abs(k0 + k1) < 1e-8:
        return
    t, L, L2 = turn(ch, P.Spiral(k0, k1, angle=a), pose)
    ch.state((k0, k1, a, t, L))
    ch.req(near(t, s * abs(a)), "spiral from curvature %s to %s given angle %.9g turns by %.9g", k0, k1, a, t)
    ch.req(near(L, 2 * abs(a) / abs(k0 + k1)) and near(L, L2), "spiral from curvature %s to %s given angle %.9g has length %.9g / %.9g", k0, k1, a, L, L2)


def spiral_rate(ch, P):
    k0, k1 = ch.free("k0", [0, 0.05, -0.05, 0.02, -0.1]), ch.free("k1", [0, 0.05, -0.05, 0.02, -0.1])
    if k0 == k1:
        return
    rate = ch.free("rate", [0.001, 0.01, 0.25]) * (1 if k1 > k0 else -1)
    t, L, L2 = turn(ch, P.Spiral(k0, k1, cdot=rate), ch.free("pose", POSES))
    ch.state((k0, k1, rate, t, L))
    ch.req(near(L, (k1 - k0) / rate) and near(L, L2), "spiral from curvature %s to %s at rate %s has length %.9g / %.9g", k0, k1, rate, L, L2)
    ch.req(near(t, (k0 + k1) / 2 * L), "spiral from curvature %s to %s at rate %s turns by %.9g", k0, k1, rate, t)


def spiral_length(ch, P):
    k0, k1 = ch.free("k0", [0, 0.05, -0.05, 0.02, -0.1]), ch.free("k1", [0, 0.05, -0.05, 0.02, -0.1])
    length = ch.free("length", [1, 20.0, 100])
    t, L, L2 = turn(ch, P.Spiral(k0, k1, length=length), ch.free("pose", POSES))
    ch.state((k0, k1, length, t))
    ch.req(near(L, length) and near(L2, length), "spiral given length %s has length %.9g / %.9g", length, L, L2)
    ch.req(near(t, (k0 + k1) / 2 * length), "spiral from curvature %s to %s of length %s turns by %.9g", k0, k1, length, t)


def rejected(ch, what, kinds, fn):
    """kinds: the exceptions that may be raised (several when there are several reasons to reject)"""
    ch.op()
    try:
        fn()
    except tuple(kinds) as e:
        ch.outcome(type(e).__name__)
        return
    except Exception as e:
        raise Violation("%s raises %s(%s) instead of %s" % (what, type(e).__name__, e, kinds[0].__name__))
    raise Violation("%s is accepted instead of raising %s" % (what, kinds[0].__name__))


def accepted(ch, what, fn):
    ch.op()
    ch.outcome("accepted")
    try:
        return fn()
    except Exception as e:
        raise Violation("%s raises %s(%s)" % (what, type(e).__name__, e))


def reject_arc(ch, P):
    X = P.exceptions
    L, a = ch.free("length", [None, 10, 0.5, 0, 0.0]), ch.free("angle", [None, 1, 0.25, 0, 0.0])
    k = ch.free("curvature", [0.1, 1, 0, 0.0])
    how = ch.free("passed", ["keyword", "position"])
    ch.state((L, a, k))
    n = (L is not None) + (a is not None)
    what = "Arc(%r, length=%r, angle=%r)" % (k, L, a)
    f = (lambda: P.Arc(k, length=L, angle=a)) if how == "keyword" else (lambda: P.Arc(k, L, a))
    kinds = [X.NotEnoughInputArguments] * (n == 0) + [X.ToManyOptionalArguments] * (n == 2) + [ValueError] * (k == 0)
    if kinds:
        rejected(ch, what, kinds, f)
    else:
        accepted(ch, what, f)


def reject_spiral(ch, P):
    X = P.exceptions
    L, a, c = (ch.free(n, o) for n, o in (("length", [None, 10, 0.5, 0]), ("angle", [None, 1, 0.25, 0]), ("cdot", [None, 0.01, 1, 0])))
    k0, k1 = ch.free("curvatures", [(0, 0.1), (0.1, 0.05), (1, 1), (-0.1, -0.05)])
    n = sum(v is not None for v in (L, a, c))
    ch.state((L, a, c, k0, k1))
    what = "Spiral(%r, %r, length=%r, angle=%r, cdot=%r)" % (k0, k1, L, a, c)
    f = lambda: P.Spiral(k0, k1, length=L, angle=a, cdot=c)
    if n == 0:
        rejected(ch, what, [X.NotEnoughInputArguments], f)
    elif n > 1:
        rejected(ch, what, [X.ToManyOptionalArguments], f)
    elif 0 not in (L, a, c):
        accepted(ch, what, f)


def reject_poly(ch, P):
    rng, L = ch.free("range", ["normalized", "arcLength", None]), ch.free("length", [None, 1, 12.5])
    c = ch.free("coefficients", [(0, 1, 0, 0, 0, 0, 0, 0), (0, 0.9, 0, 0, 0, 0, 0.1, 0)])
    what = "ParamPoly3(prange=%r, length=%r)" % (rng, L)
    f = lambda: P.ParamPoly3(*c, **dict({} if rng is None else {"prange": rng}, **({} if L is None else {"length": L})))
    ch.state((rng, L))
    if rng == "arcLength" and L is None:
        rejected(ch, what, [ValueError], f)
    else:
        g = accepted(ch, what, f)
        if rng == "arcLength":
            ch.req(near(float(g.get_end_data(0, 0, 0)[3]), L), "polynomial of length %s reports %s", L, g.get_end_data(0, 0, 0)[3])


def reject_plan(ch, P):
    x, y, h = (ch.free(n, [None, 0, 5, 0.0, -1.5]) for n in "xyh")
    n = sum(v is not None for v in (x, y, h))
    what = "PlanView(%r, %r, %r)" % (x, y, h)
    ch.state((x, y, h))
    if n in (1, 2):
        rejected(ch, what, [P.exceptions.NotEnoughInputArguments], lambda: P.PlanView(x, y, h))
    else:
        pv = accepted(ch, what, lambda: P.PlanView(x, y, h))
        pv.add_geometry(P.Line(10))
        pv.adjust_geometries()
        want = (0.0, 0.0, 0.0) if n == 0 else (float(x), float(y), float(h))
        ch.req(ref.same_pose(tuple(map(float, pv.get_start_point())), want), "%s starts at %s", what, pv.get_start_point())


SCENARIOS = [Scenario(n, f) for n, f in (("arc", arc), ("spiral-angle", spiral_angle), ("spiral-rate", spiral_rate), ("spiral-length", spiral_length), ("reject-arc", reject_arc),
                                         ("reject-spiral", reject_spiral), ("reject-poly", reject_poly), ("reject-plan", reject_plan))]
