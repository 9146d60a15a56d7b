"""The viewer is started on the file just written."""
import os
import platform
import shlex
import subprocess
import sys
import xml.etree.ElementTree as ET
from ..engine import Scenario, Violation
from .. import ref
from .c22 import Default, Within, document, fault, scratch, FAULTS, NAMES


class Started(Exception):
    pass


class Machine:
    """Stand-ins for every way to start a program, recording what is started and the file at that moment; and another platform."""

    def __init__(self, name, target, answer):
        self.name, self.target, self.answer, self.log = name, target, answer, []

    def record(self, cmd, shell):
        data = None
        if os.path.isfile(self.target):
            with open(self.target, "rb") as fh:
                data = fh.read()
        self.log.append((cmd, shell, data))

    def __enter__(self):
        log, self.undo = self.log, []

        def put(obj, name, value):
            if hasattr(obj, name):
                self.undo.append((obj, name, getattr(obj, name)))
                setattr(obj, name, value)

        def system(command):
            self.record(command, True)
            return self.answer

        class Popen:
            def __init__(p, args, *a, **kw):
                self.record(args, kw.get("shell", False))
                p.args, p.returncode, p.pid = args, self.answer, 1

            def wait(p, timeout=None):
                return self.answer

            def poll(p):
                return self.answer

            def communicate(p, *a, **kw):
                return b"", b""

            def __enter__(p):
                return p

            def __exit__(p, *a):
                return False

        def run(args, *a, **kw):
            self.record(args, kw.get("shell", False))
            if kw.get("check") and self.answer:
                raise subprocess.CalledProcessError(self.answer, args)
            return subprocess.CompletedProcess(args, self.answer, b"", b"")

        def call(args, *a, **kw):
            return run(args, *a, **kw).returncode

        def spawn(mode, file, *args):
            self.record(list(args[0]) if args and isinstance(args[0], (list, tuple)) else list(args), False)
            return self.answer

        def execute(file, *args):
            self.record(list(args[0]) if args and isinstance(args[0], (list, tuple)) else list(args), False)
            raise Started()
        put(os, "system", system)
        put(os, "popen", lambda cmd, *a, **kw: system(cmd) or open(os.devnull))
        put(os, "startfile", lambda f, *a: system(f))
        for n in ("spawnl", "spawnle", "spawnlp", "spawnlpe", "spawnv", "spawnve", "spawnvp", "spawnvpe"):
            put(os, n, spawn)
        for n in ("execl", "execle", "execlp", "execlpe", "execv", "execve", "execvp", "execvpe"):
            put(os, n, execute)
        put(os, "posix_spawn", lambda path, argv, env, **kw: spawn(0, path, argv))
        put(subprocess, "Popen", Popen)
        for n, f in (("run", run), ("call", call), ("check_call", lambda a, *b, **k: call(a, *b, **dict(k, check=True))), ("check_output", lambda a, *b, **k: call(a, *b, **dict(k, check=True)) or b""),
                     ("getoutput", lambda c: str(system(c))), ("getstatusoutput", lambda c: (system(c), ""))):
            put(subprocess, n, f)
        put(os, "name", self.name)
        put(sys, "platform", {"posix": "linux", "nt": "win32"}[self.name])
        put(platform, "system", lambda: {"posix": "Linux", "nt": "Windows"}[self.name])
        return self

    def __exit__(self, *a):
        for o, n, v in reversed(self.undo):
            setattr(o, n, v)


def words(cmd, shell):
    return list(map(str, cmd)) if not isinstance(cmd, str) else shlex.split(cmd)


PATHS = ["esmini", "a/b", "./esmini", "esmini/", "../up/esmini", "deep/er/and/deeper", "es.mini-2_0", "/abs"]
ODD = ["my esmini", "it's", "a$HOME", "a&b", "~", "a;b", "\u00fcber", "(x86)"]
DENSITIES = [None, 15, 0, 1, 100, 7.5, 1e-3]


def place(d, path):
    """(path to give, folder it means, working folder)"""
    work = os.path.join(d, "work", "here")
    os.makedirs(work, exist_ok=True)
    if path == "/abs":
        path = os.path.join(d, "somewhere", "esmini")
    if path is None:
        return None, os.path.join(work, "esmini"), work
    return path, os.path.normpath(os.path.join(work, path)), work


def run(ch, P, desc, path, density, name, how, enc, before, answer, mark=None, bare=False):
    d = scratch()
    arg, real, work = place(d, path)
    folder = os.path.join(real, "resources", "xodr")
    target = os.path.join(folder, "pythonroad.xodr")
    if not bare:
        os.makedirs(folder)
        if before is not None:
            with open(target, "wb") as fh:
                fh.write(before)
    odr = document(P, desc)
    if mark:
        fault(P, odr, mark, desc[0])
    a, kw = [odr], {}
    if how == "keywords":
        if arg is not None:
            kw["esminipath"] = arg
        if density is not None:
            kw["density"] = density
    else:
        if arg is not None or density is not None:
            a.append(arg if arg is not None else "esmini")
        if density is not None:
            a.append(density)
    err = None
    with Within(work), Default(enc), Machine(name, target, answer) as m:
        try:
            P.run_road(*a, **kw)
        except Started:
            pass
        except Exception as e:
            err = e
    ch.op()
    return odr, real, work, target, m.log, err


def judge(ch, P, desc, path, density, name, how, enc, before, answer):
    odr, real, work, target, log, err = run(ch, P, desc, path, density, name, how, enc, before, answer)
    what = "esmini path %r, density %r, platform %s" % (path, density, name)
    if err is not None:
        raise Violation("%s: %s: %s" % (what, type(err).__name__, str(err)[:200]))
    ch.req(len(log) == 1, "%s: %d programs are started: %s", what, len(log), [l[0] for l in log])
    cmd, shell, data = log[0]
    ch.req(data is not None, "%s: the viewer starts before the file is written", what)
    try:
        root = ET.fromstring(data)
    except ET.ParseError as e:
        raise Violation("%s: the file is not complete or well-formed when the viewer starts: %s" % (what, e))
    got, want = ref.dump(root), ref.dump(odr.get_element())
    ch.req(got == want, "%s: the viewer is started on a file that is not the document", what)
    with open(target, "rb") as fh:
        ch.req(fh.read() == data, "%s: the file is changed after the viewer started", what)
    files = [os.path.join(p, f) for p, _, fs in os.walk(scratch_root(work)) for f in fs]
    ch.req(files == [target], "%s: files written: %s", what, files)
    w = words(cmd, shell)
    ch.req(len(w) > 0, "%s: nothing is started", what)
    exe = os.path.normpath(os.path.join(work, w[0]))
    ch.req(exe == os.path.join(real, "bin", "odrviewer" + (".exe" if name == "nt" else "")), "%s: %s is started", what, w[0])
    if name == "posix":
        ch.req("/" in w[0], "%s: %s is looked up on the search path", what, w[0])
    ch.req(w.count("--odr") == 1, "%s: the command %s has not one --odr", what, w)
    f = w[w.index("--odr") + 1:][:1]
    ch.req(f and os.path.normpath(os.path.join(work, f[0])) == target, "%s: the viewer is given %s", what, f)
    ch.req(w.count("--density") == 1, "%s: the command %s has not one --density", what, w)
    v = w[w.index("--density") + 1:][:1]
    ch.req(v and float(v[0]) == (15 if density is None else density), "%s: the viewer is given density %s", what, v)
    ch.state((what, [x.replace(scratch_root(work), "") for x in w]))
    ch.outcome("started on " + name)


def scratch_root(work):
    return os.path.dirname(os.path.dirname(work))


def plain(ch, P):
    path = ch.free("path", [None] + PATHS)
    density = ch.free("density", DENSITIES)
    name = ch.free("platform", ["posix", "nt"])
    kind = ch.free("document", ["straight", "everything"])
    inner = ch.dev("name inside", NAMES)
    how = ch.dev("arguments", ["keywords", "positional"])
    enc = ch.dev("default encoding", ["as it is", "ascii", "latin-1", "utf-16"])
    before = ch.dev("file before", [None, b"", b"x" * 300000])
    answer = ch.dev("viewer returns", [0, 1, 256, -1])
    docname = ch.dev("document name", ["doc", "pythonroad", "a b", "\u00fc"])
    judge(ch, P, (kind, docname, inner), path, density, name, how, enc, before, answer)


def odd(ch, P):
    """Paths a shell would read differently."""
    path = ch.free("path", [a for a in ODD] + [b + "/" + a for a in ODD for b in ("x",)])
    density = ch.free("density", DENSITIES)
    how = ch.free("arguments", ["keywords", "positional"])
    judge(ch, P, ("straight", "doc", ch.dev("name inside", NAMES)), path, density, "posix", how, "as it is", None, 0)


def linked(ch, P):
    """Paths through symbolic links: the viewer gets the file that was written, and it lies below the folder that the system reaches by the path."""
    d = scratch()
    work, far = os.path.join(d, "work", "here"), os.path.join(d, "far")
    os.makedirs(work)
    os.makedirs(os.path.join(far, "sub"))
    path, real = ch.free("path", [("link/../esmini", "far/esmini"), ("link/esmini", "far/sub/esmini"), ("link", "far/sub"), ("there/../../esmini", "esmini"), ("link/../../work/here/esmini", "work/here/esmini")])
    os.symlink(os.path.join(far, "sub"), os.path.join(work, "link"))
    os.symlink(os.path.join("..", "..", "far"), os.path.join(work, "there"))
    if path.startswith("there"):
        path = path.replace("../../", "../")
    for p in ("far/esmini", "far/sub/esmini", "far/sub", "esmini", "work/esmini", "work/here/esmini"):
        os.makedirs(os.path.join(d, p, "resources", "xodr"), exist_ok=True)
        os.makedirs(os.path.join(d, p, "bin"), exist_ok=True)
    target = os.path.join(d, real, "resources", "xodr", "pythonroad.xodr")
    if ch.free("absolute", [False, True]):
        path = os.path.join(work, path)
    name = ch.free("platform", ["posix", "nt"])
    odr = document(P, ("straight", "doc", "x"))
    with Within(work), Machine(name, target, 0) as m:
        P.run_road(odr, path, 3)
    ch.op()
    what = "esmini path %r through links, platform %s" % (path.replace(d, ""), name)
    ch.req(len(m.log) == 1, "%s: %d programs are started", what, len(m.log))
    cmd, shell, data = m.log[0]
    files = [os.path.join(p, f) for p, _, fs in os.walk(d) for f in fs]
    ch.req(files == [target], "%s: files written: %s", what, [f.replace(d, "") for f in files])
    ch.req(data is not None and ref.dump(ET.fromstring(data)) == ref.dump(odr.get_element()), "%s: the viewer is not started on the document", what)
    w = words(cmd, shell)
    f = w[w.index("--odr") + 1] if "--odr" in w[:-1] else ""
    ch.req(os.path.realpath(os.path.join(work, f)) == os.path.realpath(target), "%s: the viewer is given %s", what, f.replace(d, ""))
    exe = os.path.join(work, w[0])
    ch.req(os.path.realpath(os.path.dirname(os.path.dirname(exe))) == os.path.realpath(os.path.join(d, real)), "%s: %s is started", what, w[0])
    ch.state((what, f.replace(d, "")))
    ch.outcome("started on " + name)


def again(ch, P):
    """Several runs: every viewer sees the document of its own run."""
    d = scratch()
    arg, real, work = place(d, "esmini")
    target = os.path.join(real, "resources", "xodr", "pythonroad.xodr")
    os.makedirs(os.path.dirname(target))
    docs = [document(P, ("everything", "one", "x")), document(P, ("straight", "two", "y")), document(P, ("empty", "three", ""))]
    for k in range(2 + ch.bound):
        i, density, name = ch.free("document", [0, 1, 2]), ch.free("density", [1, 2]), ch.dev("platform", ["posix", "nt"])
        if ch.dev("more", [False, True]) and docs[i].roads:
            docs[i].roads[sorted(docs[i].roads)[0]].add_signal(P.Signal(3, 3, "de", "77"))
        with Within(work), Machine(name, target, 0) as m:
            P.run_road(docs[i], arg, density)
        ch.op()
        ch.req(len(m.log) == 1, "run %d starts %d programs", k + 1, len(m.log))
        cmd, shell, data = m.log[0]
        ch.req(data is not None and ref.dump(ET.fromstring(data)) == ref.dump(docs[i].get_element()), "run %d starts the viewer on another document", k + 1)
        w = words(cmd, shell)
        ch.req(float(w[w.index("--density") + 1]) == density, "run %d has density %s instead of %s", k + 1, w, density)
    ch.state(ref.dump(docs[i].get_element()))


def faults(ch, P):
    """No viewer without a file of this document."""
    f = ch.free("fault", FAULTS + ["no folder"])
    path = ch.free("path", ["esmini", "a/b", "/abs"])
    name = ch.free("platform", ["posix", "nt"])
    kind = ch.free("document", ["straight", "everything"])
    before = ch.free("file before", [None, b"<old/>"])
    odr, real, work, target, log, err = run(ch, P, (kind, "doc", "x"), path, 15, name, "keywords", "as it is", before, 0, None if f == "no folder" else f, f == "no folder")
    what = "%s, %s" % (f, path)
    if err is None:
        ch.outcome("started: " + f)
        if f == "no folder":  # creating the folder would do
            ch.req(len(log) == 1 and log[0][2] is not None, "%s: the viewer is started without the file", what)
        return
    ch.outcome("error: " + f)
    ch.req(not log, "%s: %s is raised, but %s is started", what, type(err).__name__, [l[0] for l in log])
    if before is not None and f != "no folder":
        with open(target, "rb") as fh:
            ch.req(fh.read() == before, "%s: %s is raised, but the existing file is changed", what, type(err).__name__)
    ch.state((what, kind, before))


SCENARIOS = [Scenario("plain", plain, 1, 2), Scenario("odd", odd, 1, 1), Scenario("linked", linked, 0, 0), Scenario("again", again, 1, 2), Scenario("faults", faults, 0, 0)]
ASSUMPTIONS = ["programs are started through the os or subprocess modules; nothing is really started", "on Windows only paths without blanks or other characters its command interpreter treats specially"]
