"""Checks the explorer itself and that the code can be imported: python -m mc.main selftest"""
import math
from . import engine, ref
from .load import load


def toy(ch, P):
    a = ch.free("a", [0, 1, 2])
    b = ch.dev("b", [0, 1])
    c = ch.dev("c", [0, 1, 2])
    ch.perm("order", "xyz")
    ch.req(not (a == 2 and b == 1 and c == 2), "found")


def count(bound):
    seen, stack = set(), [(0, [])]
    bad = 0
    while stack:
        cost, vec = stack.pop()
        ch, msg, key = engine.run_one(engine.Scenario("toy", toy), None, vec, bound)
        full = tuple(t[1] for t in ch.trace)
        assert full not in seen
        seen.add(full)
        bad += msg is not None
        for i in range(len(ch.points) - 1, len(vec) - 1, -1):
            n, c = ch.points[i]
            if cost + c <= bound:
                stack += [(cost + c, list(vec) + [0] * (i - len(vec)) + [k]) for k in range(1, n)]
    return len(seen), bad


def run():
    engine._setup()
    assert count(0) == (3 * 6, 0)
    assert count(1) == (3 * 6 * 4, 0)
    assert count(2) == (3 * 6 * 6, 6), count(2)
    u, v, h = ref.curve_delta("spiral", {"curvStart": 0.0, "curvEnd": 0.1}, 10.0)
    # Fresnel integrals by series: x = sum (-1)^n L^(4n+1) (g/2)^(2n) / ((4n+1)(2n)!)
    g = 0.1 / 10 / 2
    x = sum((-1) ** n * 10.0 ** (4 * n + 1) * g ** (2 * n) / ((4 * n + 1) * math.factorial(2 * n)) for n in range(12))
    assert abs(u - x) < 1e-10 and abs(h - 0.5) < 1e-12, (u, x, h)
    load()
    print("explorer and reference curves in order; package imported")
    return 0
