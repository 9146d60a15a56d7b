"""Road marks write what was given and default only the rest."""
import itertools
from ..engine import Scenario
from .. import ref

TYPES = "none solid broken solid_solid solid_broken broken_solid broken_broken botts_dots grass curb custom edge".split()
COLORS = [None] + "standard blue green red white yellow orange".split()
WEIGHTS = [None, "standard", "bold"]
CHANGES = [None, "increase", "decrease", "both", "none"]
RULES = [None, "no_passing", "caution", "none"]
NUM = [None, 0, 0.0, 4, 0.5, -1 / 3]
NAMES = ["width", "length", "space", "toffset", "soffset", "rule", "color", "marking_weight", "height", "laneChange"]


def expected(kw):
    t = kw["marking_type"]
    w = lambda x: x.replace("_", " ")
    at = {"type": w(t), "color": w(kw.get("color") or "standard"), "weight": w(kw.get("marking_weight") or "standard"), "height": float(kw.get("height", 0.02)), "sOffset": float(kw.get("soffset", 0))}
    line = None
    given = lambda k: kw.get(k) is not None
    width = kw.get("width")
    if any(given(k) for k in ("length", "space", "toffset", "rule")):
        d = {"broken": (3, 3), "solid": (3, 0)}.get(t, (0, 0))
        width = width if width is not None else 0.2
        line = {"length": float(kw["length"] if given("length") else d[0]), "space": float(kw["space"] if given("space") else d[1]), "width": float(width),
                "tOffset": float(kw["toffset"] if given("toffset") else 0), "sOffset": float(kw.get("soffset", 0)), "rule": w(kw["rule"]) if given("rule") else "none"}
    if width is not None:
        at["width"] = float(width)
    if kw.get("laneChange") is not None:
        at["laneChange"] = w(kw["laneChange"])
    return at, line


TEXT = ("type", "color", "weight", "laneChange", "rule", "name")


def parse(attrib):
    return {k: (v if k in TEXT else float(v)) for k, v in attrib.items()}


def judge(ch, e, kw):
    at, line = expected(kw)
    ch.state(ref.dump(e))
    ch.req(e.tag == "roadMark", "written as %s", e.tag)
    got = parse(e.attrib)
    if line is not None and kw.get("width") is None and "width" not in got:
        at.pop("width")  # the width of the line is stated in its type element
    ch.req(got == at, "road mark %s has attributes %s instead of %s", kw, got, at)
    lines = list(e.iter("line"))
    if line is None:
        ch.req(not lines, "road mark %s has a line although neither length, space, t offset nor rule is given", kw)
        ch.outcome("no line")
        return
    ch.outcome("line")
    ch.req(len(lines) == 1 and len(e) == 1 and e[0].tag == "type" and len(e[0]) == 1, "road mark %s has %d lines", kw, len(lines))
    ch.req(parse(e[0].attrib) == {"name": at["type"], "width": line["width"]}, "the type of road mark %s is %s", kw, e[0].attrib)
    ch.req(parse(lines[0].attrib) == line, "the line of road mark %s has %s instead of %s", kw, parse(lines[0].attrib), line)


def mark(P, kw, positional=False):
    en = {"marking_type": P.RoadMarkType, "color": P.RoadMarkColor, "marking_weight": P.RoadMarkWeight, "rule": P.MarkRule, "laneChange": P.LaneChange}
    kw = {k: getattr(en[k], v) if k in en and v is not None else v for k, v in kw.items()}
    if not positional:
        return P.RoadMark(**kw)
    args, rest = [kw["marking_type"]], ["width", "length", "space", "toffset"]
    args += [kw.get(k) for k in rest]
    return P.RoadMark(*args, **{k: v for k, v in kw.items() if k not in rest + ["marking_type"]})


def look(ch, P, m, how):
    if how == "in a lane":
        l = P.Lane()
        l.add_roadmark(m)
        s = P.LaneSection(0, P.Lane())
        s.add_left_lane(l)
        return s.get_element().find("left/lane/roadMark")
    if how == "twice":
        m.get_element()
        m.get_attributes()
    return m.get_element()


def sizes(ch, P):
    """All combinations of given and missing numbers and rules, for every type."""
    kw = {"marking_type": ch.free("type", TYPES)}
    for k in ("length", "space", "toffset", "width"):
        v = ch.free(k, NUM if k != "width" else [None, 0, 0.35])
        if v is not None:
            kw[k] = v
    v = ch.free("rule", RULES)
    if v:
        kw["rule"] = v
    for k, opts in (("soffset", [None, 0, 3, 8 / 3]), ("color", COLORS), ("marking_weight", WEIGHTS), ("height", [None, 0, 1 / 3]), ("laneChange", CHANGES)):
        v = ch.dev(k, opts)
        if v is not None:
            kw[k] = v
    how = ch.dev("looked at", ["alone", "in a lane", "twice"])
    ch.op()
    judge(ch, look(ch, P, mark(P, kw, ch.dev("arguments", [False, True])), how), kw)


def words(ch, P):
    """All types, colours, weights, lane changes and rules."""
    kw = {"marking_type": ch.free("type", TYPES)}
    for k, opts in (("color", COLORS), ("marking_weight", WEIGHTS), ("laneChange", CHANGES), ("rule", RULES), ("height", [None, 0, 1 / 3]), ("soffset", [None, 0, 7.5]), ("width", [None, 0, 1 / 3])):
        v = ch.free(k, opts)
        if v is not None:
            kw[k] = v
    v = ch.dev("length", NUM)
    if v is not None:
        kw["length"] = v
    ch.op()
    judge(ch, look(ch, P, mark(P, kw), "alone"), kw)


def numbers(ch, P):
    """Every number written exactly: very small, very large, with many digits."""
    kw = {"marking_type": ch.free("type", TYPES)}
    for k in ("length", "space", "toffset", "soffset", "height", "width"):
        v = ch.dev(k, [None] + ref.ODD)
        if v is not None:
            kw[k] = v
    ch.op()
    judge(ch, mark(P, kw).get_element(), kw)


def several(ch, P):
    """Marks made one after another are independent of each other."""
    made = []
    for i in range(3):
        kw = ch.free("mark %d" % i, [dict(marking_type="broken", length=1), dict(marking_type="broken", space=0), dict(marking_type="solid", width=0.3), dict(marking_type="solid", rule="caution"),
                                     dict(marking_type="edge", toffset=0), dict(marking_type="curb", length=2, color="red", soffset=4), dict(marking_type="broken", length=0, space=0, toffset=0.5, width=0)])
        made.append((mark(P, kw), kw))
        ch.op()
    for m, kw in made:
        judge(ch, m.get_element(), kw)


LINE = ["width", "length", "space", "toffset", "soffset"]


def lines(ch, P):
    """A road line of its own, by name and by position."""
    vals = {k: ch.free(k, [None, 0, 0.35, -2, 1e-9]) for k in LINE}
    rule = ch.free("rule", RULES)
    color = ch.dev("color", COLORS)
    kw = {k: v for k, v in vals.items() if v is not None}
    if rule:
        kw["rule"] = getattr(P.MarkRule, rule)
    if color:
        kw["color"] = getattr(P.RoadMarkColor, color)
    n = next((i for i, k in enumerate(LINE) if vals[k] is None), len(LINE))
    if ch.dev("positional", [False, True]):
        l = P.RoadLine(*[vals[k] for k in LINE[:n]], **{k: v for k, v in kw.items() if k not in LINE[:n]})
    else:
        l = P.RoadLine(**kw)
    e = l.get_element()
    ch.op(2)
    want = {{"toffset": "tOffset", "soffset": "sOffset"}.get(k, k): float(v or 0) for k, v in vals.items()}
    if rule:
        want["rule"] = rule.replace("_", " ")
    got = {k: (v if k in TEXT else float(v)) for k, v in e.attrib.items() if k != "color"}
    ch.state(ref.dump(e))
    ch.req(e.tag == "line" and len(e) == 0, "a road line is written as %s with %d elements", e.tag, len(e))
    ch.req(got == want, "road line %s has %s instead of %s", kw, got, want)


SCENARIOS = [Scenario("lines", lines), Scenario("sizes", sizes, 1, 2), Scenario("words", words, 1, 1), Scenario("several", several), Scenario("numbers", numbers, 2, 2)]
