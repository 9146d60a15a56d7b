"""Lane linkers link both lanes exactly once."""
import itertools
from ..engine import Scenario
from .. import ref


def sections(P, shape):
    out = []
    for k, (nl, nr) in enumerate(shape):
        s = P.LaneSection(k * 10, P.Lane())
        for _ in range(nl):
            s.add_left_lane(P.Lane(a=3))
        for _ in range(nr):
            s.add_right_lane(P.Lane(a=3))
        out.append(s)
    return out


def lane(sec, i):
    return sec.centerlane if i == 0 else sec.leftlanes[i - 1] if i > 0 else sec.rightlanes[-i - 1]


def written(lanes):
    out = {}
    for k, s in enumerate(lanes.get_element()):
        for side in s:
            for l in side:
                out[k, int(l.get("id"))] = sorted((x.tag, x.get("id")) for link in l.findall("link") for x in link)
    return out


def judge(ch, lanes, pairs, shape, extra=""):
    want = {(k, i): [] for k, (nl, nr) in enumerate(shape) for i in range(-nr, nl + 1)}
    for (k, a), (m, b) in pairs:
        want[k, a].append(("successor", str(b)))
        want[m, b].append(("predecessor", str(a)))
    got = written(lanes)
    ch.state((sorted(got.items()), extra))
    for x in sorted(set(want) | set(got)):
        ch.req(got.get(x) == sorted(want.get(x, [])), "lane %d of section %d has links %s instead of %s %s", x[1], x[0], got.get(x), sorted(want.get(x, [])), extra)


def pool(shape, centre=False):
    """all pairs of lanes of consecutive sections that a linker may connect"""
    out = []
    for k in range(len(shape) - 1):
        for a in range(-shape[k][1], shape[k][0] + 1):
            for b in range(-shape[k + 1][1], shape[k + 1][0] + 1):
                if (a == 0) == (b == 0) and a * b >= 0 and (a or centre):
                    out.append(((k, a), (k + 1, b)))
    return out


SHAPES = [((1, 1), (1, 1)), ((1, 1), (1, 1), (1, 1)), ((2, 1), (1, 1)), ((0, 2), (0, 3)), ((1, 2), (1, 1), (2, 2))]


def assignments(ch, P):
    """All sets of pairs, their distribution over linkers, and all ways to pass the linkers with sections."""
    shape = ch.free("lanes", SHAPES)
    pairs = []
    for p in pool(shape):
        if len(pairs) < 4 and ch.free("pair %s" % (p,), ["absent", "linked"]) == "linked":
            pairs.append(p)
    n = ch.free("linkers", [1, 2, 3])
    linkers = [P.LaneLinker() for _ in range(n)]
    secs = sections(P, shape)
    where = [ch.free("linker of pair %d" % i, list(range(n))) for i in range(len(pairs))]
    via = ch.dev("connecting road", [(), (4,), ("4",), (0,)])
    for p, w in zip(pairs, where):
        (k, a), (m, b) = p
        linkers[w].add_link(lane(secs[k], a), lane(secs[m], b), *via)
    passed = set()
    lanes = P.Lanes()
    for k, s in enumerate(secs):
        opts = [None] + list(range(n)) + [list(c) for r in (1, 2, 3) for c in itertools.combinations(range(n), r)]
        if k == len(secs) - 1 and len(passed) < n:
            opts = [list(range(n))] + [o for o in opts if set(range(n)) <= passed | set([o] if isinstance(o, int) else o or [])]
        o = ch.dev("passed with section %d" % k, opts)
        if o is None:
            lanes.add_lanesection(s)
        elif isinstance(o, int):
            lanes.add_lanesection(s, linkers[o])
        else:
            lanes.add_lanesection(s, [linkers[i] for i in o])
        passed |= set([o] if isinstance(o, int) else o or [])
        ch.op()
    judge(ch, lanes, [p for p, w in zip(pairs, where) if w in passed], shape, "[pairs %s in linkers %s]" % (pairs, where))
    if ch.dev("written again", [False, True]):
        judge(ch, lanes, [p for p, w in zip(pairs, where) if w in passed], shape)


def late(ch, P):
    """Pairs registered between the additions, after a linker was passed already."""
    shape = ch.free("lanes", [SHAPES[0], SHAPES[1], ((2, 2), (2, 2), (2, 2), (2, 2))])
    secs = sections(P, shape)
    n = ch.free("linkers", [1, 2])
    linkers = [P.LaneLinker() for _ in range(n)]
    lanes, registered, linked = P.Lanes(), [], []
    ps = [p for p in pool(shape) if p[0][1] == p[1][1]][:4]
    when = {p: (ch.free("%s registered before section" % (p,), list(range(len(secs)))), ch.free("in", list(range(n)))) for p in ps[:2]}
    for p in ps[2:4]:
        when[p] = ch.dev("%s registered before section" % (p,), list(range(len(secs)))), ch.dev("in", list(range(n)))
    for k, s in enumerate(secs):
        for p in ps:
            t, w = when[p]
            if t == k:
                (q, a), (m, b) = p
                linkers[w].add_link(lane(secs[q], a), lane(secs[m], b))
                registered.append((p, w))
        o = ch.free("passed with section %d" % k, [None] + list(range(n)) + ([[0, 1], [1, 0]] if n > 1 else [[0]]))
        if o is None:
            lanes.add_lanesection(s)
            continue
        use = [o] if isinstance(o, int) else o
        lanes.add_lanesection(s, linkers[o] if isinstance(o, int) else [linkers[i] for i in o])
        linked += [p for p, w in registered if w in use and p not in linked]
        ch.op()
    judge(ch, lanes, linked, shape, "[registered %s]" % registered)


def fans(ch, P):
    """Lanes that merge or split: several pairs share a lane."""
    shape = ch.free("lanes", [((0, 3), (0, 3)), ((3, 0), (3, 0), (3, 0)), ((2, 2), (2, 2))])
    secs = sections(P, shape)
    links, lk = [], P.LaneLinker()
    for p in pool(shape)[:9]:
        if len(links) < 5 and ch.free("pair %s" % (p,), [False, True]):
            links.append(p)
    order = links if ch.dev("registered", ["in order", "reversed"]) == "in order" else links[::-1]
    for (k, a), (m, b) in order:
        lk.add_link(lane(secs[k], a), lane(secs[m], b))
    at = ch.free("passed with", ["all", "first", "last", "list each"])
    lanes = P.Lanes()
    for i, s in enumerate(secs):
        if at == "all":
            lanes.add_lanesection(s, lk)
        elif at == "list each":
            lanes.add_lanesection(s, [lk, lk])
        elif (at == "first" and i == 0) or (at == "last" and i == len(secs) - 1):
            lanes.add_lanesection(s, lk)
        else:
            lanes.add_lanesection(s)
    ch.op(len(secs))
    judge(ch, lanes, links, shape)


def two_roads(ch, P):
    """Two roads with linkers of their own, built in turn; and adjusted as a network afterwards."""
    shape = ch.free("lanes", [((1, 1), (1, 1)), ((2, 2), (2, 2)), ((1, 1), (2, 2), (1, 1))])
    roads = []
    for r in range(2):
        secs = sections(P, shape)
        lk = [P.LaneLinker() for _ in range(len(shape) - 1)]
        pairs = [p for p in pool(shape) if p[0][1] == p[1][1]]
        pairs = [p for p in pairs if ch.dev("road %d pair %s" % (r, p), [True, False])]
        for p in pairs:
            (k, a), (m, b) = p
            lk[k].add_link(lane(secs[k], a), lane(secs[m], b))
        roads.append((P.Lanes(), secs, lk, pairs))
    turn = ch.free("built", ["in turn", "one after the other"])
    seq = [(r, k) for k in range(len(shape)) for r in range(2)] if turn == "in turn" else [(r, k) for r in range(2) for k in range(len(shape))]
    how = ch.free("linkers passed", ["own", "all with last", "all with each"])
    for r, k in seq:
        ls, secs, lk, pairs = roads[r]
        if how == "own":
            ls.add_lanesection(secs[k], lk[k] if k < len(lk) else None)
        elif how == "all with each" or k == len(shape) - 1:
            ls.add_lanesection(secs[k], lk)
        else:
            ls.add_lanesection(secs[k])
        ch.op()
    for ls, secs, lk, pairs in roads:
        judge(ch, ls, pairs, shape)
    if ch.free("adjusted", [False, True]):
        odr, rs = P.OpenDrive("x"), []
        for i, (ls, secs, lk, pairs) in enumerate(roads):
            pv = P.PlanView()
            pv.add_geometry(P.Line(100))
            rs.append(P.Road(i, pv, ls))
        rs[0].add_successor(P.ElementType.road, 1, P.ContactPoint.start)
        rs[1].add_predecessor(P.ElementType.road, 0, P.ContactPoint.end)
        for r in rs:
            odr.add_road(r)
        odr.adjust_roads_and_lanes()
        for i, (ls, secs, lk, pairs) in enumerate(roads):
            got = written(ls)
            for (k, l), links in got.items():
                want = [("successor", str(b[1])) for a, b in pairs if a == (k, l)] + [("predecessor", str(a[1])) for a, b in pairs if b == (k, l)]
                if l and i == 0 and k == len(shape) - 1:
                    want.append(("successor", str(l)))
                if l and i == 1 and k == 0:
                    want.append(("predecessor", str(l)))
                ch.req(links == sorted(want), "after adjusting, lane %d of section %d of road %d has links %s instead of %s", l, k, i, links, sorted(want))


def wide(ch, P):
    """Many lanes and many lane sections, centre lanes included."""
    n = ch.free("sections", [2, 3, 7, 12])
    shape = [ch.free("lanes", [(1, 1), (0, 3), (9, 2), (3, 12)])] * n
    secs = sections(P, shape)
    which = ch.free("pairs", ["all", "centre only", "all but centre", "every second"])
    ps = [p for p in pool(shape, True) if p[0][1] == p[1][1]]
    ps = [p for i, p in enumerate(ps) if which == "all" or (which == "every second" and i % 2) or (which == "centre only" and not p[0][1]) or (which == "all but centre" and p[0][1])]
    k = ch.free("linkers", [1, 2, 5, 9])
    linkers = [P.LaneLinker() for _ in range(k)]
    style = ch.free("distributed", ["in turn", "by section"])
    for i, p in enumerate(ps):
        linkers[(i if style == "in turn" else p[0][0]) % k].add_link(lane(secs[p[0][0]], p[0][1]), lane(secs[p[1][0]], p[1][1]))
    how = ch.free("passed", ["all with each", "all with last", "all with first", "in turn, then all"])
    lanes = P.Lanes()
    for i, s in enumerate(secs):
        if how == "all with each" or (how == "all with first" and not i) or i == n - 1:
            lanes.add_lanesection(s, linkers)
        elif how == "in turn, then all":
            lanes.add_lanesection(s, linkers[i % k])
        else:
            lanes.add_lanesection(s)
        ch.op()
    judge(ch, lanes, ps, shape)


def merge(ch, P):
    """Many lanes that merge into one or split from one, in one linker or one for each."""
    n, m = ch.free("lanes", [(3, 1), (7, 1), (12, 1), (1, 7), (1, 12), (4, 3)])
    side = ch.free("side", ["left", "right"])
    shape = [(n, 0), (m, 0)] if side == "left" else [(0, n), (0, m)]
    ps = pool(shape)
    if ch.free("registered", ["in order", "reversed"]) == "reversed":
        ps.reverse()
    secs = sections(P, shape)
    linkers = [P.LaneLinker() for _ in range(len(ps) if ch.free("linkers", ["one", "one for each"]) == "one for each" else 1)]
    for i, ((k, a), (q, b)) in enumerate(ps):
        linkers[i % len(linkers)].add_link(lane(secs[k], a), lane(secs[q], b))
    at = ch.free("passed with", ["first", "last", "both"])
    lanes = P.Lanes()
    for i, s in enumerate(secs):
        lanes.add_lanesection(s, *([linkers] if at == "both" or i == (at == "last") else []))
        ch.op()
    judge(ch, lanes, ps, shape)


def one_pair(ch, P):
    """A single pair of any two lanes, centre lanes included."""
    shape = ch.free("lanes", [((2, 2), (2, 2)), ((1, 1), (2, 2), (1, 1)), ((0, 3), (3, 0))])
    secs = sections(P, shape)
    p = ch.free("pair", [((k, a), (k + 1, b)) for k in range(len(shape) - 1) for a in range(-shape[k][1], shape[k][0] + 1) for b in range(-shape[k + 1][1], shape[k + 1][0] + 1)])
    road = ch.free("connecting road", [None, 5])
    lk = P.LaneLinker()
    ends = lane(secs[p[0][0]], p[0][1]), lane(secs[p[1][0]], p[1][1])
    lk.add_link(*ends) if road is None else lk.add_link(ends[0], ends[1], road)
    at = ch.free("passed with", list(range(len(shape))))
    lanes = P.Lanes()
    for i, s in enumerate(secs):
        lanes.add_lanesection(s, *([lk] if i == at else []))
        ch.op()
    judge(ch, lanes, [p], shape)


SCENARIOS = [Scenario("one-pair", one_pair), Scenario("wide", wide), Scenario("merge", merge), Scenario("assignments", assignments, 1, 2), Scenario("late", late, 1, 2), Scenario("fans", fans), Scenario("two-roads", two_roads, 1, 2)]
ASSUMPTIONS = ["the lanes of a pair belong to lane sections when the linker is passed", "no pair is registered twice"]
