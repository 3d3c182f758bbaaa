"""Self-test of the front end against CPython: small functions are run by CPython and symbolically;
the symbolic result must be CPython's.  `python3-vt selftest/differential.py [-j N] [NAME...]`

Every case is tried twice: with the arguments as constants, and with arbitrary arguments constrained
to the same values by a precondition (the two use different rules of the front end)."""
import os
import sys
import tempfile
from concurrent.futures import ProcessPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from selftest.snippets import CASES, PRELUDE  # noqa: E402


def ty(v):
    if isinstance(v, bool):
        return "bool"
    if v is None:
        return "none"
    if isinstance(v, int):
        return "int"
    if isinstance(v, bytes):
        return "bytes"
    if isinstance(v, bytearray):
        return "bytearray"
    if isinstance(v, str):
        return "str"
    if isinstance(v, tuple):
        return "tuple[%s]" % ",".join(ty(x) for x in v)
    if isinstance(v, list):
        return "list[%s]" % (ty(v[0]) if v else "int")
    if isinstance(v, dict):
        return "dict[bytes,bytes]"
    raise TypeError(v)


SORT = {"int": "int", "bool": "bool", "bytes": "Seq<int>", "bytearray": "Seq<int>", "str": "Seq<int>"}


def sort(t):
    if t.startswith("list["):
        return "Seq<%s>" % sort(t[5:-1])
    return SORT[t]


def term(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return "(%dint)" % v if v >= 0 else "(-%dint)" % -v
    if isinstance(v, (bytes, bytearray)):
        return "seq![%s]" % ", ".join("%dint" % x for x in v) if v else "Seq::<int>::empty()"
    if isinstance(v, str):
        return term([ord(c) for c in v]) if v else "Seq::<int>::empty()"
    if isinstance(v, list):
        return "seq![%s]" % ", ".join(term(x) for x in v) if v else "Seq::<%s>::empty()" % SORT["int"]
    if isinstance(v, tuple):
        return "(%s)" % ", ".join(term(x) for x in v)
    if isinstance(v, dict):
        t = "Map::<Seq<int>, Seq<int>>::empty()"
        for a, b in v.items():
            t += ".insert(%s, %s)" % (term(a), term(b))
        return t
    raise TypeError(v)


def equal(path, v):
    """Formula: the term at path equals the value."""
    if v is None:
        return "true"
    if isinstance(v, tuple):
        return "(%s)" % (" && ".join(equal("%s.%d" % (path, i), x) for i, x in enumerate(v)) or "true")
    if isinstance(v, (int, bool)):
        return "(%s == %s)" % (path, term(v))
    return "(%s =~~= %s)" % (path, term(v))


def main():
    from pyv import prove as pv
    from pyv.spec import Contract, Rais, Ret, Spec
    from pyv.world import World
    sel = [a for a in sys.argv[1:] if not a.startswith("-")]
    src, cases = [PRELUDE], []
    ns = {}
    exec(PRELUDE, ns)
    for i, (code, argss) in enumerate(CASES):
        name = "t%d" % i
        code = code.replace("def f(", "def %s(" % name)
        exec(code, ns)
        src.append(code)
        params = list(__import__("inspect").signature(ns[name]).parameters)
        for j, args in enumerate(argss):
            try:
                cp = __import__("copy").deepcopy(args)
                res = ns[name](*cp)
                al = {k: params[n] for k, x in enumerate(res if isinstance(res, tuple) else [res])
                      for n, y in enumerate(cp) if x is y and isinstance(x, (list, dict))}
                out = ("value", res, (al if isinstance(res, tuple) else al.get(0)) or None)
            except Exception as e:
                out = ("raise", type(e).__name__)
            src.append("def %s_%d():\n    return %s(%s)\n" % (name, j, name, ", ".join(map(repr, args))))
            cases.append((i, name, j, params, args, out))
    with tempfile.TemporaryDirectory(prefix="pyv_self_") as d:
        os.makedirs(d + "/src/pymt")
        with open(d + "/src/pymt/__init__.py", "w"):
            pass
        with open(d + "/src/pymt/snip.py", "w") as f:
            f.write("\n".join(src))
        w = World(d)
        assert not w.unsound, w.unsound
        spec = Spec()
        libs = [l for l in pv.LIB_ORDER if l in ("base", "nib", "codec", "text", "hashes")
                and os.path.exists(os.path.join(ROOT, "lib", l + ".rs"))]
        names = []
        for i, name, j, params, args, out in cases:
            if sel and name not in sel and str(i) not in sel:
                continue
            for mode in ("const", "sym"):
                qual = "%s_%d" % (name, j) if mode == "const" else name
                ps = {} if mode == "const" else {p: ty(a) for p, a in zip(params, args)}
                req = {} if mode == "const" else {p: equal("$" + p, a) for p, a in zip(params, args) if a is not None}
                for pol in ("pos", "neg"):
                    if out[0] == "value":
                        e = equal("$result", out[1])
                        rets = [Ret(ty(out[1]), ensures={"v": e if pol == "pos" else "!" + e},
                                    alias=out[2] if mode == "sym" else None)]
                        raises = [] if pol == "pos" else [Rais(("*",), {"no": "true"})]
                    else:
                        rets = [Ret("any", ensures={"v": "false" if pol == "pos" else "true"})]
                        raises = [Rais((out[1],), {"v": "true" if pol == "pos" else "false"})]
                    c = Contract(qual, ps, returns=rets, raises=raises, requires=req, modifies=tuple(
                        p for p, t in ps.items() if t.startswith(("list", "dict"))), variant="%s%d%s" % (mode, j, pol))
                    c.libs = libs
                    c.group = "self"
                    spec.add(c)
                    names.append((c.name, i, j, mode, pol))
        for cs in spec.contracts.values():
            for c in cs:
                spec.inline.add(c.qual)
        pv._w, pv._s = w, spec
        pos = [n for n in names if n[4] == "pos"]
        outs = pv.prove([n[0] for n in pos], jobs=7, infer=False)
        bad = [n for n in pos if outs[n[0]].status in ("failed", "undecided")]
        neg = pv.prove([n[0][:-3] + "neg" for n in bad], jobs=7, infer=False) if bad else {}
        wrong = unknown = 0
        for n in bad:
            o, on = outs[n[0]], neg[n[0][:-3] + "neg"]
            kind = any("declared type" in f[0] or "no exception" in f[0] or "object" in f[0] for f in o.failed)
            if on.status == "proved" or kind:
                wrong += 1
                print("WRONG  ", end="")
            else:
                unknown += 1
                print("unknown", end="")
            print(" %s: %s args=%r expected=%r %s" % (n[0], CASES[n[1]][0].split("return")[-1].strip()[:70], CASES[n[1]][1][n[2]],
                                                     [c[5] for c in cases if c[0] == n[1] and c[2] == n[2]][0], [f[:2] for f in o.failed][:2]))
        uns = [n for n in pos if outs[n[0]].status == "unsupported"]
        for n in uns:
            print("unsupported %s: %s" % (n[0], str(outs[n[0]].unsupported[0])[-300:]))
        print("%d cases: %d agree, %d WRONG, %d not decided, %d outside the front end" % (
            len(pos), len(pos) - len(bad) - len(uns), wrong, unknown, len(uns)))
        sys.exit(1 if wrong else 0)


if __name__ == "__main__":
    main()
