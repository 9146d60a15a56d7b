"""Junction connections keep their lane links and get unique ids."""
from ..engine import Scenario
from .. import ref

IDS = [None, 0, 1, 2, 5, "1", "x"]
ROADS = [(1, 10), (2, 11), ("3", "12"), ("a", "b c"), (0, 0)]
LINKS = [(), ((-1, -1),), ((1, 2), (-1, -2), (3, 3)), ((-1, 1), (-1, 1)), ((0, 5),)]


class Model:
    def __init__(self, P, name, jid):
        self.P, self.name, self.jid = P, name, jid
        self.j = P.Junction(name, jid)
        self.want = []  # [incoming, connecting, contact point, explicit id or None, lane links, id]
        self.cons = []

    def connection(self, inc, con, contact, cid, links):
        P = self.P
        cp = getattr(P.ContactPoint, contact)
        c = P.Connection(inc, con, cp) if cid is None else P.Connection(inc, con, cp, cid)
        for l in links:
            c.add_lanelink(*l)
        return c

    def add(self, ch, inc, con, contact, cid, links):
        c = self.connection(inc, con, contact, cid, links)
        self.j.add_connection(c)
        self.cons.append(c)
        ch.op()
        self.want.append([inc, con, contact, cid, list(links), None])
        self.judge(ch)

    def link(self, ch, k, l):
        self.cons[k].add_lanelink(*l)
        self.want[k][4].append(l)
        ch.op()

    def judge(self, ch):
        e = self.j.get_element()
        what = [w[:4] for w in self.want]
        ch.req(e.tag == "junction" and e.get("name") == self.name and e.get("id") == str(self.jid), "junction %r with id %r is written with %s", self.name, self.jid, e.attrib)
        ch.req([c.tag for c in e] == ["connection"] * len(self.want), "%d connections are written as %s", len(self.want), [c.tag for c in e])
        for n, (c, w) in enumerate(zip(e, self.want)):
            got = (c.get("incomingRoad"), c.get("connectingRoad"), c.get("contactPoint"))
            ch.req(got == (str(w[0]), str(w[1]), w[2]), "connection %d of %s is written as %s", n, what, got)
            links = [(x.tag, x.get("from"), x.get("to")) for x in c]
            ch.req(links == [("laneLink", str(a), str(b)) for a, b in w[4]], "connection %d with lane links %s is written with %s", n, w[4], links)
            cid = c.get("id")
            if w[3] is not None:
                ch.req(cid == str(w[3]), "the id of connection %d of %s becomes %s", n, what, cid)
            elif w[5] is None:
                ch.req(cid not in (None, "", "None"), "connection %d of %s has the id %r", n, what, cid)
                others = [o[5] for o in self.want[:n]]
                ch.req(cid not in others, "connection %d of %s gets the id %s, which another one has (%s)", n, what, cid, others)
            else:
                ch.req(cid == w[5], "the id of connection %d of %s changes from %s to %s", n, what, w[5], cid)
            w[5] = cid
        ch.state(ref.dump(e))


def ids(ch, P):
    """All sequences of explicit and automatic ids."""
    m = Model(P, ch.dev("name", ["j", "", "two words"]), ch.dev("id", [1, 0, "x"]))
    m.judge(ch)
    for k in range(3 + ch.bound):
        cid = ch.free("id of connection %d" % k, (["stop"] if k else []) + IDS)
        if cid == "stop":
            break
        inc, con = ch.dev("roads", ROADS)
        m.add(ch, inc, con, ch.dev("contact point", ["start", "end"]), cid, ch.dev("lane links", LINKS))
    m.judge(ch)


def operations(ch, P):
    """Connections and lane links in any order."""
    m = Model(P, "j", 1)
    for k in range(4 + ch.bound):
        ops = ["add automatic", "add explicit"] + [("link", i) for i in range(len(m.cons))]
        o = ch.free("operation", ops)
        if o == "add automatic" or o == "add explicit":
            inc, con = ROADS[len(m.cons) % len(ROADS)]
            m.add(ch, inc, con, ch.free("contact point", ["start", "end"]), None if o == "add automatic" else ch.dev("explicit", [3, 0, 1, "2"]) if len(m.cons) == 0 else 90 + k, LINKS[1])
        else:
            m.link(ch, o[1], ch.free("lane link", [(1, 1), (-1, -2), (k + 5, -k)]))
            m.judge(ch)
    m.judge(ch)


def two(ch, P):
    """Two junctions number their connections on their own; both are written in one document."""
    odr = P.OpenDrive("two")
    ms = [Model(P, "one", 1), Model(P, "other", 2)]
    for m in ms:
        odr.add_junction(m.j)
    for k in range(4 + ch.bound):
        i, cid = ch.free("junction", [0, 1]), ch.free("id", [None, 0, 1, 3])
        ms[i].add(ch, *ROADS[k % 5], "end", cid, LINKS[k % 5])
    js = odr.get_element().findall("junction")
    for j, m in zip(js, ms):
        ch.req(ref.dump(j) == ref.dump(m.j.get_element()), "a junction is written differently in the document")
        m.judge(ch)


def many(ch, P):
    """Longer sequences with explicit ids that come in the way later."""
    m = Model(P, "j", 1)
    n = ch.free("connections", [9, 12, 25])
    step = ch.free("explicit at every", [2, 3, 4])
    first, inc = ch.free("explicit from", [0, 1, 2, 3, 5, 8, 11]), ch.free("explicit step", [1, 2, -1, 5])
    text = ch.free("as text", [False, True])
    e = first
    for k in range(n):
        cid = None
        if k % step == 0 and e >= 0 and all(o[5] != str(e) for o in m.want):
            cid = str(e) if text else e
            e += inc
        m.add(ch, k, 100 + k, "start" if k % 3 else "end", cid, ((k, -k),) * (k % 3))
    m.judge(ch)


def wide(ch, P):
    """Connections with many lane links."""
    n = ch.free("lanes", [7, 12, 40])
    one = ch.free("order", [[-k for k in range(1, n)] + list(range(1, n)), [-k for k in range(n, 0, -1)], [k * 7 % (n + 1) - n // 2 for k in range(n)], [1] * n])
    to = ch.free("to", ["same", "negated", "first", "reversed"])
    links = list(zip(one, {"same": one, "negated": [-k for k in one], "first": [-1] * len(one), "reversed": one[::-1]}[to]))
    m = Model(P, "j", 1)
    early = ch.free("before it is added", ["all", "half", "none"])
    k = {"all": len(links), "half": len(links) // 2, "none": 0}[early]
    m.add(ch, 1, 2, "start", ch.free("id", [None, 7]), links[:k])
    m.add(ch, 2, 3, "end", None, links[:2])
    for l in links[k:]:
        m.link(ch, 0, l)
    m.judge(ch)


SCENARIOS = [Scenario("wide", wide), Scenario("ids", ids, 1, 2), Scenario("operations", operations, 1, 2), Scenario("two", two, 0, 1), Scenario("many", many, 0, 0)]
