"""python -m mc.main check Cnn [quick|thorough] | confirm FILE | replay FILE | fallback Cnn TIER"""
import json
import os
import pickle
import subprocess
import sys
import tempfile

from . import engine


def check(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cap = {"quick": 420, "thorough": 3 * 3600}[tier]
    extra = {"interpreter": sys.version.split()[0]}
    try:
        from .load import load
        out, sys.stdout = sys.stdout, engine._Null()
        try:
            load()
        finally:
            sys.stdout = out
        res = engine.explore(pid, tier, seed, cap)
    except ImportError as e:
        res = None
        print("exploring interpreter cannot import the code (%s); using the project's" % e)
    if res is not None and res["errors"]:
        print(res["errors"][0])
        engine.evidence(pid, tier, seed, res, 0, dict(extra, error=res["errors"][0][-500:]))
        return 2
    confirmed = []
    if res is not None:
        res["viol"].sort(key=lambda r: (r["deviations"], len(r["history"]), len(r["vector"])))
        for r in res["viol"][:6]:
            p = engine.write_replay(r)
            if engine.confirm(p):
                confirmed.append((p, r))
                break
    if not confirmed and (res is None or res["viol"]):
        # only the project's own interpreter can settle this
        if res is not None:
            for r in res["viol"][:6]:
                print("not confirmed by the project's interpreter: %s" % r["message"])
            extra["unconfirmed_violations"] = [r["message"] for r in res["viol"][:6]]
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "res")
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1")
            subprocess.run([engine.PROJECT_PY, "-m", "mc.main", "fallback", pid, tier, str(seed), f], cwd=engine.VERIF, env=env, check=True)
            with open(f, "rb") as fh:
                res = pickle.load(fh)
        extra["interpreter"] = "project (fallback)"
        if res["errors"]:
            print(res["errors"][0])
            engine.evidence(pid, tier, seed, res, 0, extra)
            return 2
        for r in res["viol"][:6]:
            confirmed.append((engine.write_replay(r), r))
            break
    engine.evidence(pid, tier, seed, res, len(confirmed), extra)
    seen = {r["key"] for r in res["known"]}
    for f in engine.findings()["known"]:
        if f["property"] == pid and f["key"] in seen:
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    for n, t in res["total"].items():
        print("%s/%s: executions=%d states=%d operations=%d deviations<=%d (completed %d) outcomes=%s" % (
            pid, n, t["runs"], len(t["states"]), t["ops"], t["bound"], t["completed_bound"], dict(t["outcomes"].most_common(8))))
    print("%s %s: %.1f s%s" % (pid, tier, res["wall"], ", CAPPED" if res["capped"] else ""))
    for p, r in confirmed:
        print("  %s" % r["message"])
        for c in r["choices"]:
            print("    %s -> [%d] %s" % tuple(c))
        print("VIOLATION property=%s replay=%s" % (pid, p))
    return 1 if confirmed else 0


def main(a):
    if a[0] == "check":
        return check(a[1].upper(), a[2] if len(a) > 2 else os.environ.get("VERIF_TIER") or "quick")
    if a[0] == "selftest":
        from .selftest import run
        return run()
    if a[0] == "fallback":
        res = engine.explore(a[1], a[2], int(a[3]), 300, bound_delta=1)
        with open(a[4], "wb") as f:
            pickle.dump(res, f, 2)
        return 0
    if a[0] in ("confirm", "replay"):
        ch, msg = engine.replay(a[1])
        rec = json.load(open(a[1]))
        for l, k, v in ch.trace:
            print("  %s -> [%d] %s" % (l, k, engine._short(v)))
        print(msg or "no violation")
        if msg:
            print("VIOLATION property=%s replay=%s" % (rec["property"], a[1]))
        return 1 if msg else 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    with tempfile.TemporaryDirectory(prefix="mc-") as scratch:
        os.environ["MC_SCRATCH"] = scratch
        code = main(sys.argv[1:])
    sys.exit(code)
