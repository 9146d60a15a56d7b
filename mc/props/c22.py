"""Written files parse back to the document, in both formats."""
import atexit
import builtins
import io
import os
import pickle
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET
from ..engine import Scenario, Violation, VERIF
from .. import ref

NAMES = ["plain", "two words", "  blanks   inside  ", "\u00dcber", "\u65e5\u672c", "<&>\"'", "]]>", "&amp;", "\U0001f600", "\u00a0", "a=\"b\"", "<!-- x -->", "%s{}\\n", "\u00e9" * 300, "\ufeffbom", "e\u0301", "\u2028x"]
BAD = ["a tab\there", "line\nbreak"]  # excluded by the statement
STRUCT = ["straight", "empty", "everything", "unlinked junction", "two roads"]
ENCODINGS = ["as it is", "ascii", "latin-1", "utf-16", "cp1252", "utf-8"]


def document(P, desc):
    """desc = (structure, name, name of a road, junction, object and signal)"""
    kind, name, inner = desc
    odr = P.OpenDrive(name)
    if kind == "empty":
        return odr
    r = P.create_straight_road(1) if kind == "straight" else P.create_cloth_arc_cloth(0.05, 0.4, 0.3, 1, junction=-1)
    r.name = inner
    if kind == "everything":
        r.add_signal([P.Signal(1, 2, inner, "t", name=inner, value=3, unit=inner), P.Signal(2, 2, "se", inner)])
        o = P.Object(4, 1, Type=inner, name=inner)
        o.repeat(10, 2)
        r.add_object([o, P.Object(5, 1, Type=P.ObjectType.pole)])
    if kind in ("everything", "two roads"):
        q = P.create_straight_road("2")
        r.add_successor(P.ElementType.road, "2", P.ContactPoint.start)
        q.add_predecessor(P.ElementType.road, 1, P.ContactPoint.end)
        q.add_neighbor(P.ElementType.road, inner, P.Direction.same)
        odr.add_road(r)
        odr.add_road(q)
    else:
        odr.add_road(r)
    if kind in ("everything", "unlinked junction"):
        j = P.Junction(inner, inner)
        c = P.Connection(1, inner, P.ContactPoint.end)
        c.add_lanelink(-1, -1)
        j.add_connection(c)
        odr.add_junction(j)
    odr.adjust_roads_and_lanes()
    return odr


# ---- scratch folder and default text encodings ----
def scratch():
    """An empty folder of this process, below the one the check creates and removes."""
    d = os.path.join(os.environ["MC_SCRATCH"], "p%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        p = os.path.join(d, f)
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    return d


class Default:
    """Stand-in for open that behaves as under another default text encoding."""

    def __init__(self, encoding):
        self.encoding = encoding

    def __enter__(self):
        self.real = builtins.open, io.open
        if self.encoding != "as it is":
            real, enc = builtins.open, self.encoding

            def opened(file, mode="r", buffering=-1, encoding=None, *a, **kw):
                if "b" not in mode and encoding in (None, "locale"):
                    encoding = enc
                return real(file, mode, buffering, encoding, *a, **kw)
            builtins.open = io.open = opened

    def __exit__(self, *a):
        builtins.open, io.open = self.real


class Within:
    def __init__(self, d):
        self.d = d

    def __enter__(self):
        self.old = os.getcwd()
        os.chdir(self.d)

    def __exit__(self, *a):
        os.chdir(self.old)


def write(P, odr, target, pretty, d):
    """-> path of the written file"""
    kw = {} if pretty == "default" else {"prettyprint": pretty}
    if target == "default name":
        odr.write_xml(**kw)
        return os.path.join(d, odr.name + ".xodr")
    if target == "None":
        odr.write_xml(None, **kw)
        return os.path.join(d, odr.name + ".xodr")
    f = {"relative": "road.xodr", "absolute": os.path.join(d, "road.xodr"), "in a folder": os.path.join("sub dir", "x.y.xml"), "no extension": os.path.join(d, "road")}[target]
    if target == "in a folder":
        os.makedirs(os.path.join(d, "sub dir"), exist_ok=True)
    odr.write_xml(f, **kw) if pretty == "default" or target == "relative" else odr.write_xml(f, pretty)
    return os.path.join(d, f)


def judge(ch, odr, path, what):
    """odr: the document, or what it dumps to"""
    ch.req(os.path.isfile(path), "%s: no file %s is written", what, os.path.basename(path))
    with open(path, "rb") as fh:
        data = fh.read()
    try:
        root = ET.fromstring(data)
    except ET.ParseError as e:
        raise Violation("%s: the file is not well-formed: %s (%r)" % (what, e, data[:120]))
    got, want = ref.dump(root), odr if isinstance(odr, str) else ref.dump(odr.get_element())
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Violation("%s: the file contains ...%s instead of ...%s" % (what, got[max(0, i - 60):i + 60], want[max(0, i - 60):i + 60]))
    ch.req(root.find("header").get("date"), "%s: no date in the file", what)
    ch.state(want + what)


TARGETS = ["default name", "relative", "absolute", "in a folder", "None", "no extension"]
PRETTY = ["default", True, False]


def formats(ch, P):
    """All documents, names, formats, targets, default encodings."""
    inner = ch.free("inner name", NAMES)
    kind = ch.free("document", ["everything", "straight", "unlinked junction"])
    pretty = ch.free("pretty", PRETTY)
    name = ch.dev("document name", ["doc"] + NAMES[1:6] + ["", "a.b"])
    target = ch.dev("target", TARGETS)
    if "/" in name or len(name) > 100:
        raise_skip()
    enc = ch.dev("default encoding", ENCODINGS)
    before = ch.dev("before", ["nothing", "longer file", "shorter file", "read-only text"])
    d = scratch()
    odr = document(P, (kind, name, inner))
    if before != "nothing":
        for f in ("road.xodr", "road", odr.name + ".xodr"):
            with open(os.path.join(d, f), "wb") as fh:
                fh.write({"longer file": b"x" * 200000, "shorter file": b"<a/>", "read-only text": b""}[before])
    first = ref.dump(odr.get_element())
    with Within(d), Default(enc):
        path = write(P, odr, target, pretty, d)
    ch.op()
    judge(ch, odr, path, "%s, pretty=%s, name %r, %r inside, to %s, default encoding %s, over %s" % (kind, pretty, name, inner, target, enc, before))
    ch.req(ref.dump(odr.get_element()) == first, "writing changed the document")
    ch.req(sum(len(f) for _, _, f in os.walk(d)) == (1 if before == "nothing" else 3 if target != "in a folder" else 4) or before != "nothing", "further files appeared: %s", [f for _, _, f in os.walk(d)])


def raise_skip():
    from ..engine import Skip
    raise Skip()


def twice(ch, P):
    """Sequences of writes of two documents to two names."""
    d = scratch()
    docs = [document(P, ("everything", "one", NAMES[3])), document(P, ("straight", "two", "x"))]
    at = {}
    with Within(d):
        for k in range(2 + ch.bound):
            i, f, pretty = ch.free("document", [0, 1]), ch.free("file", ["f.xodr", "g.xodr"]), ch.free("pretty", [True, False])
            if ch.dev("more", [False, True]):
                docs[i].roads[sorted(docs[i].roads)[0]].add_signal(P.Signal(3, 3, "de", "77"))
                for g in [g for g, (j, _) in at.items() if j == i]:
                    del at[g]
            docs[i].write_xml(f, pretty)
            ch.op()
            at[f] = (i, pretty)
            for g, (j, p) in sorted(at.items()):
                judge(ch, docs[j], os.path.join(d, g), "document %d in %s, pretty=%s" % (j, g, p))


CHARS = ["a", " ", "<", ">", "&", '"', "'", ";", "=", "/", "-", "]", "\u00e9", "!", "#", "?", "[", "\\", "%", "x"]


def alphabet(ch, P):
    """Names made of all short strings of critical characters."""
    pretty = ch.free("pretty", PRETTY)
    first = ch.free("first characters", [a + b for a in CHARS for b in [""] + CHARS])
    rest = CHARS if ch.bound == 0 else [a + b for a in CHARS for b in [""] + CHARS]
    d = scratch()
    odr = P.OpenDrive(first.replace("/", "_"))
    road = P.Road(1, P.PlanView(), P.Lanes(), name=first)
    road.add_signal([P.Signal(1, 2, "de", c + first, name=first + c) for c in [""] + rest])
    odr.add_road(road)
    path = os.path.join(d, "road.xodr")
    odr.write_xml(path, *([] if pretty == "default" else [pretty]))
    ch.op(len(rest))
    judge(ch, odr, path, "names that begin with %r, pretty=%s" % (first, pretty))


def large(ch, P):
    """Long names and many roads."""
    pretty, target = ch.free("pretty", PRETTY), ch.free("target", ["absolute", "default name"])
    c = ch.free("made of", ["a", "\u00e9", "\U0001f600", "< ", "&amp;", "a  b"])
    n = ch.free("times", [100, 4096, 70000])
    k = ch.free("roads", [1, 60])
    d = scratch()
    odr = P.OpenDrive("doc")
    for i in range(k):
        r = P.create_straight_road(i + 1)
        r.planview.set_start_point(0, 10 * i, 0)
        r.planview.adjust_geometries()
        odr.add_road(r)
    r.name = c * n
    with Within(d):
        path = write(P, odr, target, pretty, d)
    ch.op(k)
    judge(ch, odr, path, "%d roads, the last with a name of %d times %r, pretty=%s" % (k, n, c, pretty))


# ---- an interpreter with another default text encoding ----
_helpers = {}


def helper(locale):
    key = os.getpid(), locale
    if key not in _helpers:
        env = dict(os.environ, LC_ALL=locale, LANG=locale, PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1")
        env.pop("PYTHONIOENCODING", None)
        p = subprocess.Popen([sys.executable, "-m", "mc.props.c22"], cwd=VERIF, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        _helpers[key] = p
        atexit.register(p.kill)
    return _helpers[key]


def serve():
    """Documents to write arrive on stdin; answers go to the original stdout."""
    from ..load import load
    src, dst = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    import locale
    P = load()
    while True:
        try:
            desc, target, pretty, d = pickle.load(src)
        except EOFError:
            return
        try:
            odr = document(P, desc)
            with Within(d):
                path = write(P, odr, target, pretty, d)
            ans = (locale.getpreferredencoding(False), path, None, ref.dump(odr.get_element()))
        except Exception as e:
            ans = (locale.getpreferredencoding(False), None, "%s: %s" % (type(e).__name__, str(e)[:200]), None)
        pickle.dump(ans, dst, 2)
        dst.flush()


def locales(ch, P):
    """A process started under another locale."""
    locale = ch.free("locale", ["C", "POSIX", "C.utf8"])
    desc = (ch.free("document", ["everything", "straight"]), "doc", ch.free("inner name", NAMES))
    pretty = ch.free("pretty", PRETTY)
    target = ch.dev("target", TARGETS)
    d = scratch()
    h = helper(locale)
    pickle.dump((desc, target, pretty, d), h.stdin, 2)
    h.stdin.flush()
    enc, path, err, want = pickle.load(h.stdout)
    ch.op()
    ch.outcome("default encoding " + enc.lower())
    what = "%s, pretty=%s, %r inside, to %s, in locale %s" % (desc[0], pretty, desc[2], target, locale)
    ch.req(err is None, "%s: %s", what, err)
    judge(ch, want, path, what)


# ---- documents that cannot be generated or serialised ----
class Broken(Exception):
    pass


class Refuses:
    """An element whose generation fails."""

    def __init__(self, inner, how):
        self.inner, self.how = inner, how

    def __getattr__(self, k):
        return getattr(self.inner, k)

    def get_element(self):
        raise Broken()


FAULTS = ["name of a road is no text", "name of the document is no text", "unit is no text", "generation fails in a road", "generation fails in a junction", "object without text type", "surrogate",
          "planview without geometries", "no lane section link"]


def fault(P, odr, f, kind):
    road = odr.roads[sorted(odr.roads)[-1]]
    if f == "name of a road is no text":
        road.name = 7
    elif f == "name of the document is no text":
        odr._header.name = 5
    elif f == "unit is no text":
        road.add_signal(P.Signal(1, 1, "de", "1", value=1, unit=3))
    elif f == "generation fails in a road":
        odr.roads["9"] = Refuses(road, f)
    elif f == "generation fails in a junction":
        odr.add_junction(Refuses(P.Junction("j", 1), f))
    elif f == "object without text type":
        road.add_object(P.Object(1, 1, Type=5))
    elif f == "surrogate":
        road.name = "\ud800"
    elif f == "planview without geometries":
        odr.add_road(P.Road(33, P.PlanView(), P.Lanes()))
    elif f == "no lane section link":
        road.links.links.append(None)


def faults(ch, P):
    """Whatever goes wrong before the file can be written, an existing file stays."""
    f = ch.free("fault", FAULTS)
    kind = ch.free("document", ["straight", "everything", "two roads", "unlinked junction"])
    pretty = ch.free("pretty", PRETTY)
    target = ch.free("target", TARGETS[:4])
    before = ch.free("before", [None, b"", b"<old/>", b"x" * 100000])
    d = scratch()
    odr = document(P, (kind, "doc", "inner"))
    os.makedirs(os.path.join(d, "sub dir"))
    fault(P, odr, f, kind)
    files = [os.path.join(d, x) for x in ("road.xodr", "doc.xodr", os.path.join("sub dir", "x.y.xml"))]
    if before is not None:
        for x in files:
            with open(x, "wb") as fh:
                fh.write(before)
    err = None
    with Within(d):
        try:
            path = write(P, odr, target, pretty, d)
        except Exception as e:
            err = e
    ch.op()
    what = "%s in %s, pretty=%s, to %s" % (f, kind, pretty, target)
    ch.state((what, before is None, type(err).__name__))
    if err is None:
        # tolerated only if it is a proper file after all
        ch.outcome("written: " + f)
        if f == "surrogate":  # not a name XML can represent
            return
        judge(ch, odr, path, what)
        return
    ch.outcome("error: " + f)
    if before is not None:
        for x in files:
            with open(x, "rb") as fh:
                now = fh.read()
            ch.req(now == before, "%s: %s is raised, but the file that existed (%d bytes) now has %d bytes", what, type(err).__name__, len(before), len(now))


SCENARIOS = [Scenario("alphabet", alphabet, 0, 1), Scenario("large", large), Scenario("formats", formats, 1, 3), Scenario("twice", twice, 1, 2), Scenario("locales", locales, 1, 1), Scenario("faults", faults, 0, 1)]
ASSUMPTIONS = ["names consist of characters that XML can represent; line breaks and tabs are excluded"]

if __name__ == "__main__":
    serve()
