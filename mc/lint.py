"""What must agree inside one finished document, judged from the document alone."""
import itertools
from . import ref


def numbers(sec, side):
    return [int(l.get("id")) for l in sec.findall(side + "/lane")]


def lanes_of(sec):
    return {int(l.get("id")): l for side in ("left", "center", "right") for l in sec.findall(side + "/lane")}


def one(ch, els, what):
    ch.req(len(els) <= 1, "%s: %d of them", what, len(els))
    return els[0] if els else None


def check(ch, doc, junction_sides=True):
    roads, juncs = {}, {}
    for tag, d in (("road", roads), ("junction", juncs)):
        for e in doc.findall(tag):
            ch.req(e.get("id") not in d, "two %ss have the id %s", tag, e.get("id"))
            d[e.get("id")] = e
    link = {}  # (road, end) -> (type, id, contact point)
    for rid, r in roads.items():
        for tag, end in (("predecessor", "start"), ("successor", "end")):
            l = one(ch, r.findall("link/" + tag), "%s of road %s" % (tag, rid))
            if l is not None:
                link[rid, end] = l.get("elementType"), l.get("elementId"), l.get("contactPoint")
    # roads and junctions referred to exist
    for (rid, end), (kind, other, cp) in link.items():
        ch.req(other in (roads if kind == "road" else juncs), "%s of road %s refers to %s %s, which is not in the document", end, rid, kind, other)
        ch.req(cp in ("start", "end") if kind == "road" else cp is None, "%s of road %s refers to the %s of %s %s", end, rid, cp, kind, other)
    for rid, r in roads.items():
        j = r.get("junction")
        ch.req(j == "-1" or j in juncs, "road %s belongs to junction %s, which is not in the document", rid, j)
        # extent
        gs = ref.read_geoms(r.find("planView"))
        total = sum(g[2] for g in gs)
        ch.req(abs(float(r.get("length")) - total) <= 1e-12 * (1 + total), "road %s has length %s, its geometries %s", rid, r.get("length"), total)
        s = [float(x.get("s")) for x in r.findall("lanes/laneSection")]
        ch.req(s and s[0] == 0 and all(a < b for a, b in zip(s, s[1:])) and s[-1] < total, "road %s of length %s has lane sections at %s", rid, total, s)
        for x in r.findall("objects/object/repeat"):
            a, n = float(x.get("s")), float(x.get("length"))
            ch.req(a >= 0 and n >= 0 and a + n <= total * (1 + 1e-9), "road %s of length %s has an object repeated from %s over %s", rid, total, a, n)
        for x in itertools.chain(r.findall("signals/signal"), r.findall("objects/object")):
            ch.req(-1e-9 <= float(x.get("s")) <= total * (1 + 1e-9), "road %s of length %s has a %s at %s", rid, total, x.tag, x.get("s"))
    for tag in ("signal", "object"):
        ids = [x.get("id") for x in doc.iter(tag)]
        ch.req(len(set(ids)) == len(ids), "%ss have the ids %s", tag, ids)

    def section(rid, end):
        secs = roads[rid].findall("lanes/laneSection")
        return secs[0] if end == "start" else secs[-1]

    # lane links
    n = 0
    for rid, r in roads.items():
        secs = r.findall("lanes/laneSection")
        for i, sec in enumerate(secs):
            own = lanes_of(sec)
            ch.req(len(own) == len(list(sec.iter("lane"))), "lane section %d of road %s has the lanes %s", i, rid, [l.get("id") for l in sec.iter("lane")])
            for tag, end, step in (("predecessor", "start", -1), ("successor", "end", 1)):
                inner = 0 <= i + step < len(secs)
                joined = link.get((rid, end))
                for no, lane in own.items():
                    l = one(ch, lane.findall("link/" + tag), "%s of lane %d in section %d of road %s" % (tag, no, i, rid))
                    where = "%s of lane %d in section %d of road %s" % (tag, no, i, rid)
                    if inner:
                        if l is not None:
                            there = lanes_of(secs[i + step]).get(int(l.get("id")))
                            ch.req(there is not None, "%s: there is no lane %s in section %d", where, l.get("id"), i + step)
                            back = there.findall("link/" + ("successor" if step < 0 else "predecessor"))
                            ch.req([b.get("id") for b in back] == [str(no)], "%s is lane %s, which leads back to %s", where, l.get("id"), [b.get("id") for b in back])
                            n += 1
                        continue
                    conn = r.get("junction") != "-1"
                    if l is None:
                        must = joined and joined[0] == "road" and no and (conn or (roads[joined[1]].get("junction") == "-1" and joined[2] != end and link.get((joined[1], joined[2])) == ("road", rid, end)))
                        ch.req(not must, "there is no %s although the road is joined there to %s", where, joined)
                        continue
                    ch.req(joined is not None and joined[0] == "road", "%s is %s, but the road is joined there to %s", where, l.get("id"), joined)
                    there = lanes_of(section(joined[1], joined[2])).get(int(l.get("id")))
                    ch.req(there is not None and int(l.get("id")) != 0, "%s is lane %s, which road %s does not have at its %s", where, l.get("id"), joined[1], joined[2])
                    ch.req(there.get("type") == lane.get("type"), "%s: a %s lane is followed by a %s lane", where, lane.get("type"), there.get("type"))
                    if not conn:
                        back = there.findall("link/" + ("successor" if step < 0 else "predecessor"))
                        ch.req([b.get("id") for b in back] == [str(no)], "%s is lane %s of road %s, which leads back to %s", where, l.get("id"), joined[1], [b.get("id") for b in back])
                    n += 1
    # junctions
    met = set()
    for jid, j in juncs.items():
        seen = set()
        for c in j.findall("connection"):
            ch.req(c.get("id") not in seen, "junction %s has two connections %s", jid, c.get("id"))
            seen.add(c.get("id"))
            cr, inc, end = c.get("connectingRoad"), c.get("incomingRoad"), c.get("contactPoint")
            what = "connection %s of junction %s" % (c.get("id"), jid)
            ch.req(cr in roads and roads[cr].get("junction") == jid, "%s: connecting road %s is not in the junction", what, cr)
            ch.req(inc in roads and roads[inc].get("junction") == "-1", "%s: incoming road %s is no ordinary road", what, inc)
            l = link.get((cr, end))
            ch.req(l is not None and l[:2] == ("road", inc), "%s: the %s of road %s is joined to %s, not to road %s", what, end, cr, l, inc)
            ch.req((cr, end) not in met, "%s: there is another connection for the %s of road %s", what, end, cr)
            met.add((cr, end))
            ch.req(link.get((inc, l[2])) == ("junction", jid, None), "%s: the %s of the incoming road %s is joined to %s", what, l[2], inc, link.get((inc, l[2])))
            tag = {"start": "predecessor", "end": "successor"}[end]
            want = sorted((int(x.get("id")), no) for no, lane in lanes_of(section(cr, end)).items() for x in lane.findall("link/" + tag))
            got = sorted((int(x.get("from")), int(x.get("to"))) for x in c.findall("laneLink"))
            ch.req(want == got, "%s links lanes %s, but the connecting road's own links are %s", what, got, want)
            n += len(got)
    for rid, r in roads.items():
        if r.get("junction") != "-1":
            for end in ("start", "end"):
                if link.get((rid, end), (0,))[0] == "road":
                    ch.req((rid, end) in met, "connecting road %s has no connection for its %s in junction %s", rid, end, r.get("junction"))
        elif junction_sides:
            for end in ("start", "end"):
                l = link.get((rid, end))
                if l and l[0] == "junction":
                    ch.req(any(link[m][1:] == (rid, end) and roads[m[0]].get("junction") == l[1] for m in met), "road %s leads into junction %s, where nothing leads on", rid, l[1])
                elif l and l[0] == "road":
                    ch.req(link.get((l[1], l[2])) == ("road", rid, end), "%s of road %s is joined to the %s of road %s, which is joined to %s", end, rid, l[2], l[1], link.get((l[1], l[2])))
    ch.state(ref.dump(doc))
    ch.outcome("%s lane links" % ("no" if not n else "up to 9" if n < 10 else "up to 49" if n < 50 else "many"))
