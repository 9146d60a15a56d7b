"""Signal and object attributes are written faithfully."""
from ..engine import Scenario
from .. import ref

ENUM = {"dynamic": ["yes", "no"], "orientation": ["positive", "negative", "none"],
        "Type": "none obstacle pole tree vegetation barrier building parkingSpace patch railing trafficIsland crosswalk streetLamp gantry soundBarrier roadMark".split()}
N = [0, 0.0, 2, -1.5, 1 / 3]
COMMON = [("zOffset", N), ("pitch", N), ("roll", N), ("width", N), ("height", N), ("name", ["n", "", "two words", "0"]), ("dynamic", ENUM["dynamic"]), ("orientation", ENUM["orientation"]),
          ("id", [3, "12", "x", 0])]
SIGNAL = COMMON + [("subtype", ["-1", "20", "", 0, 30]), ("value", [0, 0.0, 50, 27.5, -1]), ("unit", ["km/h", "mph", ""]), ("hOffset", N)]
OBJECT = COMMON + [("Type", ENUM["Type"] + ["'text'", "'two words'"]), ("subtype", ["a", "", "-1", 0]), ("hdg", N), ("length", N), ("radius", N), ("validLength", N)]
REPEAT = [("sStart", N), ("tStart", N), ("tEnd", N), ("heightStart", N), ("heightEnd", N), ("zOffsetStart", N), ("zOffsetEnd", N), ("widthStart", N), ("widthEnd", N), ("lengthStart", N), ("lengthEnd", N),
          ("radiusStart", N), ("radiusEnd", N)]


def val(P, k, v):
    if k == "Type" and v in ENUM["Type"]:
        return getattr(P.ObjectType, v)
    if k == "Type":
        return v.strip("'")
    return getattr({"dynamic": P.Dynamic, "orientation": P.Orientation}[k], v) if k in ("dynamic", "orientation") else v


def text(x):
    return str(x)


def num(x):
    try:
        return float(x)
    except ValueError:
        return x


def same(got, want):
    return got == want or (not isinstance(want, str) and num(got) == float(want))


def compare(ch, what, attrib, must, may):
    """must: attributes that have to be written so; may: values allowed if written"""
    for k, v in attrib.items():
        ch.req(v != "None" and "None" != v.strip(), "%s writes %s='None'", what, k)
        ch.req(k in must or k in may, "%s writes the attribute %s=%r nobody gave", what, k, v)
        w = must.get(k, may.get(k))
        ok = any(same(v, x) for x in w) if isinstance(w, (list, tuple)) else same(v, w)
        ch.req(ok, "%s writes %s=%r instead of %r", what, k, v, w)
    for k in must:
        ch.req(k in attrib, "%s does not write %s (%r)", what, k, must[k])


def common(kw, default_z):
    must, may = {}, {}
    must["dynamic"] = kw.get("dynamic", "no")
    must["zOffset"] = kw.get("zOffset", default_z)
    for k in ("pitch", "roll"):
        # not given means 0, which may be written or left out; so may a zero
        (must if kw.get(k) else may)[k] = kw.get(k, 0)
    if kw.get("name") is not None:
        must["name"] = kw["name"]
    return must, may


ORI = {"positive": "+", "negative": "-", "none": "none"}


def expect_signal(kw, pos):
    must, may = common(kw, 1.5)
    must.update(s=pos[0], t=pos[1], country=pos[2].upper(), type=text(pos[3]), orientation=ORI[kw.get("orientation", "positive")], subtype=text(kw.get("subtype", "-1")))
    for k in ("width", "height"):
        if kw.get(k) is not None:
            must[k] = kw[k]
    (must if kw.get("hOffset") else may)["hOffset"] = kw.get("hOffset", 0)
    if kw.get("value") is not None:
        must["value"] = kw["value"]
        if kw.get("unit") is not None:
            must["unit"] = kw["unit"]
    elif kw.get("unit") is not None:
        may["unit"] = kw["unit"]
    return must, may


def expect_object(kw, pos):
    must, may = common(kw, 0)
    must.update(s=pos[0], t=pos[1], orientation=ORI[kw.get("orientation", "none")], hdg=kw.get("hdg", 0), type=kw.get("Type", "none").strip("'"))
    if kw.get("subtype") is not None:
        must["subtype"] = text(kw["subtype"])
    if kw.get("height") is not None:
        must["height"] = kw["height"]
    if kw.get("validLength") is not None:
        must["validLength"] = kw["validLength"]
    if kw.get("radius") is not None:
        must["radius"] = kw["radius"]
    elif kw.get("width") is not None or kw.get("length") is not None:
        must["width"], must["length"] = kw.get("width", 0), kw.get("length", 0)
    return must, may


def expect_repeat(kw, rkw, length, distance, pos):
    must = {"length": length, "distance": distance, "s": rkw.get("sStart", pos[0]), "tStart": rkw.get("tStart", pos[1]), "tEnd": rkw.get("tEnd", pos[1]),
            "heightStart": rkw.get("heightStart", kw.get("height", 0)), "heightEnd": rkw.get("heightEnd", kw.get("height", 0)),
            "zOffsetStart": rkw.get("zOffsetStart", kw.get("zOffset", 0)), "zOffsetEnd": rkw.get("zOffsetEnd", kw.get("zOffset", 0))}
    for k in ("widthStart", "widthEnd", "lengthStart", "lengthEnd", "radiusStart", "radiusEnd"):
        if k in rkw:
            must[k] = rkw[k]
    return must, {}


def element(ch, P, x, cls, explicit):
    how = ch.dev("written", ["alone", "in a road", "twice", "attributes first"])
    tag = cls
    if how == "in a road":
        r = P.create_straight_road(1)
        (r.add_signal if cls == "signal" else r.add_object)(x)
        es = list(r.get_element().iterfind("%ss/%s" % (cls, cls)))
        ch.req(len(es) == 1, "%d %ss written", len(es), cls)
        return es[0], None
    if how == "twice":
        x.get_element()
    if how == "attributes first":
        x.get_attributes()["s"] = "changed"
    e = x.get_element()
    ch.req(e.tag == tag, "a %s is written as %s", cls, e.tag)
    return e, explicit


def pick(ch, fields, free, dev):
    """free: fields whose presence and value are enumerated completely; the others deviate"""
    kw = {}
    for k, vs in fields:
        v = ch.free(k, [None] + vs) if k in free else ch.dev(k, [None] + vs) if dev else None
        if v is not None:
            kw[k] = v
    return kw


def id_of(must, may, kw, known):
    if kw.get("id") is not None and known is not None:
        must["id"] = text(kw["id"])
    return must


def signal(ch, P, kw):
    pos = ch.dev("position", [(10, -2.5), (0, 0), (0.0, 3), (1e3, -1)]) + (ch.dev("country", ["de", "DEU", "sE", "US"]), ch.dev("type", ["274", "R1-1", 206, "-1"]))
    if kw.get("id") is None:
        kw["id"] = "own"
    x = P.Signal(pos[0], pos[1], pos[2], pos[3], **{k: val(P, k, v) for k, v in kw.items()})
    ch.op()
    e, known = element(ch, P, x, "signal", kw["id"])
    ch.state(ref.dump(e))
    must, may = expect_signal(kw, pos)
    if known is None:
        may["id"] = e.get("id")
    else:
        must["id"] = text(kw["id"])
    compare(ch, "signal %s at %s" % (kw, pos), e.attrib, must, may)
    ch.req(len(e) == 0, "the signal has children %s", [c.tag for c in e])


def obj(ch, P, kw, repeats=()):
    pos = ch.dev("position", [(10, -2.5), (0, 0), (0.0, 3), (1e3, -1)])
    if kw.get("id") is None:
        kw["id"] = "own"
    x = P.Object(pos[0], pos[1], **{k: val(P, k, v) for k, v in kw.items()})
    for (length, distance, rkw) in repeats:
        x.repeat(length, distance, **rkw)
    ch.op(1 + len(repeats))
    e, known = element(ch, P, x, "object", kw["id"])
    ch.state(ref.dump(e))
    must, may = expect_object(kw, pos)
    if known is None:
        may["id"] = e.get("id")
    else:
        must["id"] = text(kw["id"])
    compare(ch, "object %s at %s" % (kw, pos), e.attrib, must, may)
    ch.req([c.tag for c in e] == ["repeat"] * len(repeats), "the object has children %s for %d repeats", [c.tag for c in e], len(repeats))
    for c, (length, distance, rkw) in zip(e, repeats):
        m, n = expect_repeat(kw, rkw, length, distance, pos)
        compare(ch, "repeat %s of object %s at %s" % (rkw, kw, pos), c.attrib, m, n)


def pairs(fields, fn):
    """Every two fields together, with all values, the others missing or deviating."""
    def run(ch, P):
        names = [k for k, _ in fields]
        a = ch.free("field", names)
        rest = names[names.index(a) + 1:]
        b = ch.free("with", [None] + rest)
        fn(ch, P, pick(ch, fields, {a, b}, True))
    return run


def presence(fields, fn):
    """All subsets of given fields, each with a plain or a zero value."""
    def run(ch, P):
        zero = ch.free("values", ["plain", "zero"])
        kw = {}
        for k, vs in fields:
            if ch.free(k, [False, True]):
                kw[k] = vs[0] if zero == "zero" else vs[2 if len(vs) > 2 else 1]
        fn(ch, P, kw)
    return run


def numbers(ch, P):
    """Every number written exactly: very small, very large, with many digits."""
    v, kind = ch.free("value", ref.ODD), ch.free("class", ["signal", "object", "repeat", "at"])
    if kind in ("signal", "object"):
        k = ch.free("field", [k for k, vs in (SIGNAL if kind == "signal" else OBJECT) if vs is N or k == "value"])
        (signal if kind == "signal" else obj)(ch, P, {k: v})
    elif kind == "repeat":
        k = ch.free("field", [k for k, _ in REPEAT] + ["length", "distance"])
        obj(ch, P, {}, [(v if k == "length" else 10, v if k == "distance" else 2, {} if k in ("length", "distance") else {k: v})])
    else:
        for x in (P.Signal(v, -v, "de", "1", id="own"), P.Object(v, -v, id="own")):
            at = x.get_attributes()
            ch.op()
            ch.req(same(at["s"], v) and same(at["t"], -v), "a signal or object at s=%r t=%r is written at s=%s t=%s", v, -v, at["s"], at["t"])


def sizes(ch, P):
    """All combinations of width, length, radius and height."""
    kw = {}
    for k in ("width", "length", "radius", "height"):
        v = ch.free(k, [None, 0, 2, 0.5])
        if v is not None:
            kw[k] = v
    n = ch.free("repeats", [0, 1, 2, 9, 30])
    obj(ch, P, kw, [(10 + k, k, {}) for k in range(n)])


def repeats(ch, P):
    """All subsets of repeat values with a zero, a plain value or none, on objects with and without own values."""
    kw = {}
    if ch.free("object has", ["nothing", "values"]) == "values":
        kw = {"height": 1.75, "zOffset": 0.25, "width": 2, "length": 3}
    rkw = {}
    zero = ch.free("values", ["zero", "plain"])
    for i, (k, vs) in enumerate(REPEAT):
        if i < 7:
            given = ch.free(k, [False, True])
        elif i % 2:
            given = ch.free(k[:-5], [False, True])
        if given:
            rkw[k] = 0 if zero == "zero" else 1 + i
    obj(ch, P, kw, [(ch.dev("length", [100, 0, 12.5]), ch.dev("distance", [2, 0, 0.5]), rkw)])


def repeat_values(ch, P):
    """Each repeat value with every number, several repeats per object."""
    kw = pick(ch, OBJECT, set(), True)
    out = []
    for i in range(ch.free("repeats", [1, 2])):
        rkw = {}
        k = ch.free("given", [None] + [k for k, _ in REPEAT])
        if k:
            rkw[k] = ch.free("value", N if i == 0 else N[2:3])
        out.append((50, 5 + i, rkw))
    obj(ch, P, kw, out)


def nones(ch, P):
    """None given explicitly is the same as not given."""
    cls = ch.free("class", ["signal", "object"])
    names = ["subtype", "name", "width", "height"] + (["value", "unit"] if cls == "signal" else ["length", "radius", "validLength"])
    kw = {k: None for k in names if ch.free(k, ["not given", "None"]) == "None"}
    x = P.Signal(1, 2, "de", "274", id="own", **kw) if cls == "signal" else P.Object(1, 2, id="own", **kw)
    ch.op()
    must, may = (expect_signal({}, (1, 2, "de", "274")) if cls == "signal" else expect_object({}, (1, 2)))
    if cls == "signal" and "subtype" in kw:
        may["subtype"] = must.pop("subtype")
    must["id"] = "own"
    e = x.get_element()
    ch.state(ref.dump(e))
    compare(ch, "%s %s" % (cls, kw), e.attrib, must, may)
    if cls == "object":
        rk = {k: None for k, _ in REPEAT if ch.dev(k, [False, True])}
        x.repeat(3, 4, **rk)
        m, n = expect_repeat({}, {}, 3, 4, (1, 2))
        compare(ch, "repeat %s" % rk, x.get_element().find("repeat").attrib, m, n)


def changed(ch, P):
    """Values changed after construction are the ones written; repeats already made keep theirs."""
    x = P.Object(1, 2, id="own", height=3)
    k, v = ch.free("changed", [(k, v) for k in ("s", "t", "height", "zOffset", "hdg", "name", "pitch") for v in (4, 0.5)])
    before = ch.free("repeats before", [0, 1])
    after = ch.free("repeats after", [0, 1])
    for _ in range(before):
        x.repeat(10, 1)
    setattr(x, k, v)
    for _ in range(after):
        x.repeat(20, 2)
    ch.op(before + after + 2)
    e = x.get_element()
    ch.state(ref.dump(e))
    ch.req(same(e.get(k), v if k != "name" else str(v)), "%s changed to %s is written as %s", k, v, e.get(k))
    reps = e.findall("repeat")
    ch.req(len(reps) == before + after, "%d repeats instead of %d", len(reps), before + after)
    at = {"s": ["s"], "t": ["tStart", "tEnd"], "height": ["heightStart", "heightEnd"], "zOffset": ["zOffsetStart", "zOffsetEnd"]}.get(k, [])
    old = {"s": 1, "t": 2, "height": 3, "zOffset": 0}
    for i, r in enumerate(reps):
        for a in at:
            w = old[k] if i < before else v
            ch.req(same(r.get(a), w), "repeat %d writes %s=%s instead of %s", i, a, r.get(a), w)


SCENARIOS = [Scenario("numbers", numbers, 0, 1), 
    Scenario("signal-pairs", pairs(SIGNAL, signal), 1, 2), Scenario("signal-presence", presence(SIGNAL, signal), 0, 1),
    Scenario("object-pairs", pairs(OBJECT, obj), 1, 2), Scenario("object-presence", presence(OBJECT, obj), 0, 1),
    Scenario("object-sizes", sizes, 1, 2), Scenario("repeats", repeats, 1, 2), Scenario("repeat-values", repeat_values, 1, 2), Scenario("nones", nones, 1, 3), Scenario("changed", changed),
]
ASSUMPTIONS = ["pitch, roll and heading offset that are zero may be written or left out"]
