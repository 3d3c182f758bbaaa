"""Runs the checks against planted bugs: python3 tools/try.py [-t TIER] BUG...   (scratch copies only)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
for n in names:
    n, _, prop = n.partition(":")
    d = os.path.join(V, "seeded", n)
    prop = prop or json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="try_", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/src", "/repo/.git", tmp], check=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=tmp, check=True)
        t = time.time()
        p = subprocess.run([os.path.join(V, "check.sh"), prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env={**os.environ, "PYV_REPO": tmp, "PYV_EVIDENCE": os.path.join(tmp, "ev")})
        print("%-36s %s exit %d %.0fs" % (n, prop, p.returncode, time.time() - t))
        for l in p.stdout.strip().splitlines()[-6:]:
            print("      ", l[:260])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
