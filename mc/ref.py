"""Reference model: pure Python, shares no code with pyodrx."""
import math

PI = math.pi
ODD = [5e-4, -1e-9, 1e-300, 123456789.123456, 1e22, -9007199254740993, 0.1 + 0.2, 1e-5, 1e-7, -99999.99999, 2 ** 70, 4.9e-6]  # numbers that rounding, cutting off or formatting would change

# 16-point Gauss-Legendre nodes (computed once, by Newton iteration on the Legendre polynomial)


def _gauss(n):
    xs, ws = [], []
    for i in range(1, n + 1):
        x = math.cos(PI * (i - 0.25) / (n + 0.5))
        for _ in range(100):
            p0, p1 = 1.0, x
            for k in range(2, n + 1):
                p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
            dp = n * (x * p1 - p0) / (x * x - 1)
            dx = p1 / dp
            x -= dx
            if abs(dx) < 1e-16:
                break
        xs.append(x)
        ws.append(2 / ((1 - x * x) * dp * dp))
    return list(zip(xs, ws))


GL = _gauss(16)


def integrate(f, a, b, n):
    h, tot = (b - a) / n, 0.0
    for i in range(n):
        m = a + (i + 0.5) * h
        tot += sum(w * f(m + x * h / 2) for x, w in GL)
    return tot * h / 2


def curve_delta(kind, at, length):
    """Local end pose (u, v, dh) of the written curve after `length`; at = attribute values as floats."""
    if kind == "line":
        return length, 0.0, 0.0
    if kind == "arc":
        k = at["curvature"]
        return math.sin(k * length) / k, 2 * math.sin(k * length / 2) ** 2 / k, k * length
    if kind == "spiral":
        k0, k1 = at["curvStart"], at["curvEnd"]
        g = (k1 - k0) / length if length else 0.0
        th = lambda s: k0 * s + g * s * s / 2
        n = 1 + int(max(abs(k0), abs(k1)) * abs(length) * 2)
        return (integrate(lambda s: math.cos(th(s)), 0, length, n), integrate(lambda s: math.sin(th(s)), 0, length, n), th(length))
    if kind == "paramPoly3":
        p = 1.0 if at["pRange"] == "normalized" else length
        u = at["aU"] + at["bU"] * p + at["cU"] * p * p + at["dU"] * p ** 3
        v = at["aV"] + at["bV"] * p + at["cV"] * p * p + at["dV"] * p ** 3
        du = at["bU"] + 2 * at["cU"] * p + 3 * at["dU"] * p * p
        dv = at["bV"] + 2 * at["cV"] * p + 3 * at["dV"] * p * p
        return u, v, math.atan2(dv, du)
    raise AssertionError(kind)


def poly_length(at):
    f = lambda p: math.hypot(at["bU"] + 2 * at["cU"] * p + 3 * at["dU"] * p * p, at["bV"] + 2 * at["cV"] * p + 3 * at["dV"] * p * p)
    return integrate(f, 0, 1, 40)


def curve_of(elem):
    """(kind, attributes) of a line/arc/spiral/paramPoly3 element."""
    return elem.tag, {k: (v if k == "pRange" else float(v)) for k, v in elem.attrib.items()}


def step(pose, d):
    x, y, h = pose
    u, v, dh = d
    return x + u * math.cos(h) - v * math.sin(h), y + u * math.sin(h) + v * math.cos(h), h + dh


def back(pose, d):
    """Start pose such that step(start, d) == pose."""
    u, v, dh = d
    h = pose[2] - dh
    return pose[0] - (u * math.cos(h) - v * math.sin(h)), pose[1] - (u * math.sin(h) + v * math.cos(h)), h


def rev(pose):
    return pose[0], pose[1], pose[2] + PI


def adiff(a, b):
    return abs((a - b + PI) % (2 * PI) - PI)


def left(pose, d):
    return pose[0] - d * math.sin(pose[2]), pose[1] + d * math.cos(pose[2]), pose[2]


def same_pose(p, q, scale=1.0, tol=1e-7, atol=1e-7):
    t = tol * (1 + scale + max(abs(p[0]), abs(p[1]), abs(q[0]), abs(q[1])))
    return abs(p[0] - q[0]) <= t and abs(p[1] - q[1]) <= t and adiff(p[2], q[2]) <= atol


def show(p):
    return "(%.9g, %.9g, hdg %.9g)" % (p[0], p[1], p[2] % (2 * PI))


# ---- specifications of geometries and what they must amount to ----
# ("line", L) ("arcL", k, L) ("arcA", k, angle) ("spL"|"spA"|"spC", k0, k1, v) ("polyN", 8 coeffs) ("polyA", 8 coeffs, L)


def build(P, s):
    k = s[0]
    if k == "line":
        return P.Line(s[1])
    if k == "arcL":
        return P.Arc(s[1], length=s[2])
    if k == "arcA":
        return P.Arc(s[1], angle=s[2])
    if k == "spL":
        return P.Spiral(s[1], s[2], length=s[3])
    if k == "spA":
        return P.Spiral(s[1], s[2], angle=s[3])
    if k == "spC":
        return P.Spiral(s[1], s[2], cdot=s[3])
    if k == "polyN":
        return P.ParamPoly3(*s[1])
    if k == "polyA":
        return P.ParamPoly3(*s[1], prange="arcLength", length=s[2])
    raise AssertionError(k)


def _pol(c, rng):
    return dict(zip(("aU", "bU", "cU", "dU", "aV", "bV", "cV", "dV"), c), pRange=rng)


def curve_spec(s):
    """(kind, attributes, length) a geometry built from the specification has to have."""
    k = s[0]
    if k == "line":
        return "line", {}, s[1]
    if k == "arcL":
        return "arc", {"curvature": s[1]}, s[2]
    if k == "arcA":
        return "arc", {"curvature": s[1]}, abs(s[2] / s[1])
    if k == "spL":
        return "spiral", {"curvStart": s[1], "curvEnd": s[2]}, s[3]
    if k == "spA":
        return "spiral", {"curvStart": s[1], "curvEnd": s[2]}, abs(2 * s[3] / (s[1] + s[2]))
    if k == "spC":
        return "spiral", {"curvStart": s[1], "curvEnd": s[2]}, (s[2] - s[1]) / s[3]
    if k == "polyN":
        at = _pol(s[1], "normalized")
        return "paramPoly3", at, poly_length(at)
    if k == "polyA":
        return "paramPoly3", _pol(s[1], "arcLength"), s[2]
    raise AssertionError(k)


_cache = {}


def local(s):
    """(u, v, dh), length of a specification."""
    if s not in _cache:
        kind, at, L = curve_spec(s)
        _cache[s] = curve_delta(kind, at, L), L
    return _cache[s]


def fl(x):
    return float(x)


def read_geoms(planview):
    """[(s, pose, length, kind, attrs)] of a planView element."""
    out = []
    for g in planview:
        kind, at = curve_of(g[0])
        out.append((fl(g.get("s")), (fl(g.get("x")), fl(g.get("y")), fl(g.get("hdg"))), fl(g.get("length")), kind, at))
    return out


def ends(road):
    """(start pose, end pose) of a road element, from what is written only."""
    gs = read_geoms(road.find("planView"))
    s, p, L, kind, at = gs[-1]
    return gs[0][1], step(p, curve_delta(kind, at, L))


def road_elems(doc):
    return {r.get("id"): r for r in doc.findall("road")}


def similar(a, b, path="document"):
    """None, or where two documents differ beyond rounding (headings compared as directions, header date ignored)."""
    here = "%s/%s" % (path, a.tag)
    if a.tag != b.tag:
        return "%s: %s / %s" % (path, a.tag, b.tag)
    ka, kb = dict(a.attrib), dict(b.attrib)
    if a.tag == "header":
        ka.pop("date", None), kb.pop("date", None)
    if list(sorted(ka)) != list(sorted(kb)):
        return "%s: attributes %s / %s" % (here, sorted(ka), sorted(kb))
    for k in ka:
        if ka[k] == kb[k]:
            continue
        try:
            x, y = float(ka[k]), float(kb[k])
        except ValueError:
            x, y = None, None
        if x is None or k in ("id", "elementId"):
            return "%s: %s %r / %r" % (here, k, ka[k], kb[k])
        if (adiff(x, y) > 1e-9) if k == "hdg" else abs(x - y) > 1e-9 * (1 + abs(x) + abs(y)) * 100:
            return "%s: %s %r / %r" % (here, k, ka[k], kb[k])
    if (a.text or "").strip() != (b.text or "").strip():
        return "%s: text %r / %r" % (here, a.text, b.text)
    if len(a) != len(b):
        return "%s: children %s / %s" % (here, [c.tag for c in a], [c.tag for c in b])
    for c, d in zip(a, b):
        r = similar(c, d, here + (" " + a.get("id") if a.get("id") else ""))
        if r:
            return r
    return None


def dump(elem):
    """Canonical text of an element, with the date of the header removed."""
    import xml.etree.ElementTree as ET
    out = []

    def go(e):
        out.append("<%s" % e.tag)
        for k in sorted(e.attrib):
            if not (e.tag == "header" and k == "date"):
                out.append(" %s=%r" % (k, e.attrib[k]))
        out.append(">")
        if (e.text or "").strip():
            out.append(repr(e.text))
        for c in e:
            go(c)
        out.append("</>")
    go(elem)
    return "".join(out)
