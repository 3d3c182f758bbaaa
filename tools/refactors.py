"""Behaviour-preserving rewrites, many functions at a time: nothing may become a failed obligation.

usage: refactors.py [ROUND...] [-notest]      rounds are lists in tools/rewrites/*.py of (file, old, new) over docstring-free source
"""
import ast
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def plain(text):
    t = ast.parse(text)
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
    return ast.unparse(t) + "\n"


def main():
    sel = [a for a in sys.argv[1:] if not a.startswith("-")]
    d = os.path.join(ROOT, "tools", "rewrites")
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".py") or sel and fn[:-3] not in sel:
            continue
        spec = importlib.util.spec_from_file_location("rw", os.path.join(d, fn))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        tmp = tempfile.mkdtemp(prefix="rw_", dir="/tmp")
        try:
            subprocess.run(["cp", "-a", "/repo/.", tmp], check=True)
            src = {}
            for f, a, b in m.EDITS:
                if f not in src:
                    src[f] = plain(open("/repo/src/pymt/" + f).read())
                if src[f].count(a) != 1:
                    print(fn, f, "matches", src[f].count(a), "times:\n" + a)
                    return
                src[f] = src[f].replace(a, b)
            for f, t in src.items():
                open(tmp + "/src/pymt/" + f, "w").write(t)
            if "-notest" not in sys.argv:
                p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "src/pymt/tests"], cwd=tmp,
                                   env={**os.environ, "PYTHONPATH": tmp + "/src"}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                print(fn, "tests:", p.stdout.strip().splitlines()[-1])
                if p.returncode:
                    print(p.stdout[-3000:])
                    continue
            p = subprocess.run(["python3-vt", "-m", "pyv.prove", "-j", "7"], cwd=ROOT, env={**os.environ, "PYV_REPO": tmp},
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out = p.stdout.splitlines()
            for i, l in enumerate(out):
                if " proved " in l and not l.startswith(" "):
                    continue
                print("  ", l[:260])
            sys.stdout.flush()
        finally:
            shutil.rmtree(tmp)


main()
