"""Records planted bugs: python3 plant.py BATCH.py [ID...]

BATCH.py defines BUGS, a list of dicts with id, property, needs, breaks, edits [(file, old, new)], demo
(a Python program that exits nonzero when the property is broken).  A bug is kept only if the stable
tests pass with it and the demo fails with it and passes without it."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO = """#!/bin/sh
# usage: demo.sh, in the root of the repository; exit 0 when the property holds
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    for b in bugs:
        if only and b["id"] not in only:
            continue
        tmp = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
        d = os.path.join(tmp, "repo")
        sh(["cp", "-a", "/repo", d], "/")
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(d, "src/pymt", f)
                s = open(p, newline="").read()
                crlf = "\r\n" in s
                s = s.replace("\r\n", "\n")
                if s.count(old) != 1:
                    print(b["id"], "edit matches", s.count(old), "times in", f)
                    raise KeyError
                s = s.replace(old, new)
                open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
            diff = subprocess.run(["git", "diff"], cwd=d, stdout=subprocess.PIPE).stdout
            dd = os.path.join(tmp, "demo")
            os.makedirs(dd)
            open(os.path.join(dd, "demo.py"), "w").write(b["demo"])
            open(os.path.join(dd, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(dd, "demo.sh"), 0o755)
            good = sh([os.path.join(dd, "demo.sh")], "/repo")
            bad = sh([os.path.join(dd, "demo.sh")], d)
            t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], d,
                   env={**os.environ, "PYTHONPATH": os.path.join(d, "src"), "PYTHONDONTWRITEBYTECODE": "1"})
            tail = t.stdout.strip().splitlines()[-1:]
            ok = good.returncode == 0 and bad.returncode != 0 and t.returncode == 0
            print(b["id"], "KEPT" if ok else "REJECTED", "demo good=%d bad=%d tests=%d %s" % (
                good.returncode, bad.returncode, t.returncode, tail))
            if not ok:
                print(good.stdout[-500:], bad.stdout[-500:], t.stdout[-800:] if t.returncode else "")
                continue
            out = os.path.join(SEEDED, b["id"])
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(dd, out)
            open(os.path.join(out, "patch.diff"), "wb").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
        except KeyError:
            pass
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
