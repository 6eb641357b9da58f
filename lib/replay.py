"""Run one harness case on the real, unpatched code with concrete values.

usage: python -m lib.replay replay.json
Only numba (absent) is stubbed, and memory from np.empty is poisoned.
"""
import json
import os
import sys
import traceback

os.environ.setdefault("XDG_CACHE_HOME", "/tmp/vcache_replay")
os.environ.setdefault("XDG_CONFIG_HOME", os.environ["XDG_CACHE_HOME"])
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if "/repo" not in sys.path:
    sys.path.insert(0, "/repo")
from fractions import Fraction  # noqa: E402

from lib import shims, harness  # noqa: E402


def num(v):
    if isinstance(v, bool):
        return v
    f = Fraction(int(v[0]), int(v[1]))
    return int(f) if f.denominator == 1 and abs(f) < 2**900 else float(f)


def main(path):
    job = json.load(open(path))
    shims.install_numba()
    shims.install_numpy_poison()
    mod = harness.load_check(job["check"])
    case = [c for c in mod.cases(job["tier"], job.get("case_seed", 1)) if c.name == job["case"]]
    if not case:
        case = [c for c in mod.cases(job["tier"], job["seed"]) if c.name == job["case"]]
    case = case[0]
    vals = {k: num(v) for k, v in job["values"].items()}
    rep = None
    for attempt in range(6):
        env = harness.ConcEnv(case, vals, job["seed"] + 1000 * attempt, job.get("mode", "random"))
        env.check_id = job["check"]
        try:
            case.fn(env, **case.params)
            env.finish()
        except harness.AssumptionFailed:
            rep = {"status": "assume"}
            if vals and attempt == 0:
                # keep the model; other inputs are drawn again
                pass
            continue
        except Exception as e:
            tb = traceback.format_exc()
            inrepo = "/repo/" in tb or "pystencils" in tb
            rep = {"status": "fail" if inrepo else "crash",
                   "fails": ["raised %s: %s" % (type(e).__name__, str(e)[:300])], "out": tb[-3000:]}
            break
        if env.fails:
            rep = {"status": "fail", "fails": env.fails[:10], "checks": env.nchecks}
        else:
            rep = {"status": "ok", "checks": env.nchecks}
        break
    print("@@REPLAY " + json.dumps(rep))
    if rep["status"] == "fail":
        for f in rep["fails"]:
            print("  ", f)
        print(rep.get("out", ""))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
