"""What the lane links of an adjusted network must be, from its description alone."""
from . import ref


def count(r, end):
    """(left, right) lanes of a road at one of its ends"""
    return r.secs[0] if end == "start" else r.secs[-1]


def road_links(net):
    """-> ({(road, section, lane): {("successor"|"predecessor", lane id)}}, mismatch?) for ordinary roads that follow each other"""
    out, bad = {}, False
    for a in net.roads.values():
        s = a.succ
        if a.junction is not None or not s or s[0] != "road":
            continue
        b = net.roads[s[1]]
        if b.junction is not None or b is a or not b.pred or b.pred[:3] != ("road", a.name, "end") or s[2] != "start":
            continue
        if count(a, "end") != count(b, "start"):
            bad = True
            continue
        nl, nr = count(a, "end")
        for i in list(range(1, nl + 1)) + list(range(-1, -nr - 1, -1)):
            out.setdefault((a.name, len(a.secs) - 1, i), set()).add(("successor", i))
            out.setdefault((b.name, 0, i), set()).add(("predecessor", i))
    return out, bad


def connecting_links(net):
    out, bad = {}, False
    for c in net.roads.values():
        if c.junction is None:
            continue
        for end, kind, sec in (("start", "predecessor", 0), ("end", "successor", len(c.secs) - 1)):
            l = c.at(end)
            if not l:
                continue
            _, name, contact, off = l
            flip = contact == end
            nl, nr = count(c, end)
            ml, mr = count(net.roads[name], contact)
            if flip:
                ml, mr = mr, ml
            if not off and (nl > ml or nr > mr):
                bad = True
            for i in list(range(1, nl + 1)) + list(range(-1, -nr - 1, -1)):
                t = i + off
                out.setdefault((c.name, sec, i), set()).add((kind, -t if flip else t))
    return out, bad


def written(els):
    """{(road, section, lane): [(kind, id)]} of every lane that is written with a link"""
    out = {}
    for n, e in els.items():
        for k, sec in enumerate(e.findall("lanes/laneSection")):
            for lane in sec.iter("lane"):
                ls = [(x.tag, x.get("id")) for x in lane.find("link")] if lane.find("link") is not None else []
                if ls:
                    out[n, k, int(lane.get("id"))] = ls
    return out


def compare(ch, net, els, want, only=None):
    """only: restricts the comparison to some roads"""
    got = written(els)
    keep = lambda d: {k: v for k, v in d.items() if only is None or k[0] in only}
    got, want = keep(got), keep(want)
    ch.state(sorted(got.items()))
    for k in sorted(set(want) | set(got)):
        w = sorted((a, str(b)) for a, b in want.get(k, ()))
        g = sorted(got.get(k, []))
        ch.req(w == g, "lane %d of lane section %d of road %s has links %s instead of %s [%s; lanes %s; ids %s; added %s]", k[2], k[1], k[0], g, w, net.show(),
               {n: r.secs for n, r in net.roads.items()}, net.ids, net.order)
    if want:
        ch.outcome("links")
