"""Searches a failing input of a property on the real code, or replays one.

usage: runner.py PROPERTY SECONDS SEED OUT     search; exit 3 and OUT written when found
       runner.py --replay FILE                 exit 1 when the recorded input still fails
"""
import importlib
import json
import os
import random
import sys
import time

REPO = os.environ.get("PYV_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "src"))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def load(prop):
    import pymt
    if not os.path.abspath(pymt.__file__).startswith(os.path.abspath(REPO)):
        raise SystemExit("wrong pymt: " + pymt.__file__)
    return importlib.import_module("search." + prop.lower())


def run(mod, case):
    """None or a message describing how the property fails."""
    try:
        return mod.check(case)
    except RecursionError as e:
        return "unexpected %s: %s" % (type(e).__name__, e)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/pymt/" in f.filename]
        return "unexpected %s: %s (%s)" % (type(e).__name__, e, where[-1] if where else tb[-1])


def shrink(mod, case, msg, deadline):
    """Greedy: drop elements of lists, shorten byte strings (hex)."""
    def variants(x):
        if isinstance(x, list):
            n = len(x)
            k = n
            while k >= 1:
                for i in range(0, n, k):
                    yield x[:i] + x[i + k:]
                k //= 2
            for i, y in enumerate(x):
                for v in variants(y):
                    yield x[:i] + [v] + x[i + 1:]
        elif isinstance(x, dict):
            for k, y in x.items():
                for v in variants(y):
                    yield {**x, k: v}
        elif isinstance(x, str) and len(x) >= 4 and len(x) % 2 == 0:
            yield x[:len(x) // 4 * 2]
            yield x[2:]
            yield x[:-2]
    best = case
    progress = True
    while progress and time.time() < deadline:
        progress = False
        for v in variants(best):
            if time.time() > deadline:
                break
            try:
                m = run(mod, v)
            except BaseException:
                continue
            if m is not None and m.split(":")[0] == msg.split(":")[0]:
                best, msg, progress = v, m, True
                break
    return best, msg


def main():
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            d = json.load(f)
        if d.get("case") is None:
            print("no failing input recorded; failed obligations:")
            for o in d.get("obligations", []):
                print("  ", o)
            return 0
        mod = load(d["property"])
        m = run(mod, d["case"])
        print("property %s: %s" % (d["property"], m or "holds on this input"))
        return 1 if m else 0
    prop, secs, seed, out = sys.argv[1], float(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    mod = load(prop)
    rng = random.Random(seed * 1000003 + 17)
    t0 = time.time()
    n = 0
    for case in mod.cases(rng):
        n += 1
        m = run(mod, case)
        if m is not None:
            case, m = shrink(mod, case, m, time.time() + 15)
            with open(out, "w") as f:
                json.dump({"property": prop, "case": case, "message": m,
                           "how_to_replay": "/opt/venv/bin/python /verif/search/runner.py --replay <this file>"},
                          f, indent=1)
            print("found after %d cases: %s" % (n, m))
            return 3
        if time.time() - t0 > secs:
            break
    print("%d cases, %.1f s, nothing found" % (n, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
