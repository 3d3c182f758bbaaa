"""Claims that are false of CPython, mostly through sharing of objects: none may be proved."""
import os
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

CLASSES = '''
class H:
    def __init__(self, items):
        self.items = items
        self.n = 0

    def touch(self):
        self.n = 5

    def swap(self, other):
        self.items = other

    def reset(self):
        self.items = []


class Sub(H):
    def touch(self):
        self.n = 9
'''
L, LL = "list[int]", "list[list[int]]"
# source, parameter types, result type, false claim, options
TRAPS = [
    ("def f(a):\n    x = bytearray(a)\n    y = [x]\n    x.append(1)\n    return len(y[0])\n", {"a": "bytes"}, "int", "$result == $a.len()", {}),
    ("def f(a):\n    x = bytearray(a)\n    y = x\n    x += b'1'\n    return len(y)\n", {"a": "bytes"}, "int", "$result == $a.len()", {}),
    ("def f(a):\n    x = bytearray(a)\n    def g():\n        return len(x)\n    x += b'1'\n    return g()\n", {"a": "bytes"}, "int", "$result == $a.len()", {}),
    ("def f(a):\n    x = bytearray(a)\n    try:\n        return x\n    finally:\n        x.append(1)\n", {"a": "bytes"}, "bytearray", "$result.len() == $a.len()", {}),
    ("def f(a, b):\n    x = (a * 16) | b\n    y = (a * 32) | b\n    return 0 if x == y else 1\n", {"a": "int", "b": "int"}, "int", "$result == 0", {"req": "$a < 0 && 0 <= $b < 16"}),
    ("def f(a, b):\n    return (a * 16) | b\n", {"a": "int", "b": "int"}, "int", "false", {"req": "$a < 0 && 0 <= $b < 16"}),
    ("def f(a):\n    x = a[0]\n    x.append(1)\n    return len(a[0])\n", {"a": LL}, "int", "$result == $a[0].len()", {"req": "$a.len() == 1"}),
    ("def f(a, b):\n    a.append(b)\n    b.append(1)\n    return len(a[-1])\n", {"a": LL, "b": L}, "int", "$result == $b.len()", {"mod": ("a", "b")}),
    ("def f(l):\n    x = [0]\n    y = [1]\n    for v in l:\n        x = y\n    x.append(5)\n    return len(y)\n", {"l": L}, "int", "$result == 1", {"loops": ["true"]}),
    ("def f(l):\n    x = [0]\n    y = [1]\n    for v in l:\n        x = y\n    y.append(5)\n    return len(x)\n", {"l": L}, "int", "$result == 1", {"loops": ["{s:Seq<int>}.len() == 1"]}),
    ("def f(l):\n    x = []\n    y = [1]\n    for v in l:\n        x.append(y)\n    y.append(5)\n    return len(x[0])\n", {"l": L}, "int", "$result == 1", {"req": "$l.len() > 0", "loops": ["{s:Seq<Seq<int>>}.len() == {@}", "forall|i: int| 0 <= i < {s:Seq<Seq<int>>}.len() ==> (#[trigger] {s}[i]).len() == 1"]}),
    ("def f(l):\n    s = 0\n    for v in l:\n        l.append(1)\n        if len(l) > 100:\n            return 1\n        s = 2\n    return 0\n", {"l": L}, "int", "$result == 0", {"mod": ("l",)}),
    ("def f(l):\n    z = zip(l, l)\n    a = list(z)\n    b = list(z)\n    return len(b)\n", {"l": L}, "int", "$result == $l.len()", {}),
    ("def f(l):\n    z = enumerate(l)\n    l.append(1)\n    return len(list(z))\n", {"l": L}, "int", "$result == $l.len()", {"mod": ("l",)}),
    ("def f(x, l=[]):\n    l.append(x)\n    return len(l)\n", {"x": "int"}, "int", "$result == 1", {}),
    ("def f(h, o):\n    h.swap(o)\n    o.append(1)\n    return len(h.items)\n", {"h": "H", "o": L}, "int", "$result == $o.len()", {"mod": ("h.items", "o")}),
    ("def f(h):\n    x = h.items\n    h.touch()\n    x.append(1)\n    return len(h.items)\n", {"h": "H"}, "int", "$result == $h.items.len()", {"mod": ("h.items", "h.n")}),
    ("def f(h):\n    x = h.items\n    h.reset()\n    return len(x)\n", {"h": "H"}, "int", "$result == 0", {"mod": ("h.items",)}),
    ("def f(h):\n    return h.items\n", {"h": "H"}, L, "true", {}),
    ("def f(a):\n    return [a]\n", {"a": L}, LL, "true", {}),
    ("def f(a):\n    return H(a)\n", {"a": L}, "H", "true", {}),
    ("def f(a):\n    x = [a, a]\n    x[0].append(3)\n    return len(x[1])\n", {"a": L}, "int", "$result == $a.len()", {"mod": ("a",)}),
    ("def f(a):\n    x = [[] for _ in a]\n    y = [[]] * 2\n    y[0].append(1)\n    return len(y[1])\n", {"a": L}, "int", "$result == 0", {}),
    ("def f(a, i):\n    x = [[1], [2]]\n    y = x[i]\n    y.append(1)\n    return len(x[i])\n", {"a": L, "i": "int"}, "int", "$result == 1", {"req": "0 <= $i < 2"}),
    ("def f(d):\n    x = [1]\n    d[b'k'] = x\n    x.append(2)\n    return len(d[b'k'])\n", {"d": "dict[bytes,list[int]]"}, "int", "$result == 1", {"mod": ("d",)}),
    ("def f(d):\n    x = d[b'k']\n    x.append(2)\n    return len(d[b'k'])\n", {"d": "dict[bytes,list[int]]"}, "int", "$result == $d[seq![107int]].len()", {"req": "$d.dom().contains(seq![107int])", "mod": ("d",)}),
    ("def f(a):\n    g = lambda: a\n    a = 3\n    return g()\n", {"a": "int"}, "int", "$result == $a", {"req": "$a == 7"}),
    ("def f(a):\n    b = a\n    b += b'x'\n    return len(a)\n", {"a": "bytearray"}, "int", "$result == $a.len()", {}),
    ("def f(h):\n    h.touch()\n    return h.n\n", {"h": "H"}, "int", "false", {"mod": ("h.n",)}),
    ("def f(h, o):\n    o.append(1)\n    return 0\n", {"h": "H", "o": L}, "int", "true", {}),
    ("def f(h):\n    h.n = 3\n    return 0\n", {"h": "H"}, "int", "true", {}),
    ("def f(h):\n    h.items = 3\n    return 0\n", {"h": "H"}, "int", "true", {"mod": ("h.items",)}),
    ("def f(h, o):\n    h.items = o\n    return 0\n", {"h": "H", "o": L}, "int", "true", {"mod": ("h.items",)}),
    ("def f(h):\n    h.items = h.items[:]\n    return 0\n", {"h": "H"}, "int", "true", {"mod": ("h.items",)}),
    ("def f(a):\n    x = sorted(a)\n    return x[0]\n", {"a": L}, "int", "$result == $a[0]", {"req": "$a.len() > 0"}),
    ("def f(a):\n    try:\n        return a[0]\n    finally:\n        a.append(1)\n", {"a": L}, "int", "true", {"req": "$a.len() > 0"}),
    ("def f(a):\n    while a > 0:\n        a = a\n    return 0\n", {"a": "int"}, "int", "true", {}),
    ("def f(a):\n    return f(a)\n", {"a": "int"}, "int", "false", {}),
    ("def f(a, b):\n    return a is b\n", {"a": L, "b": L}, "bool", "true", {}) if False else
    ("def f(a):\n    return a[:] is a\n", {"a": L}, "bool", "$result", {}),
    ("def f(a):\n    b = bytearray(a)\n    c = b\n    c[0] = 1\n    return b[0]\n", {"a": "bytes"}, "int", "$result == $a[0]", {"req": "$a.len() == 1"}),
    ("def f(a):\n    b = bytearray(a)\n    b.append(1)\n    return len(b)\n", {"a": "bytes"}, "int", "$result == $a.len()", {}),
    ("def f(a):\n    b = bytearray(a)\n    c = b\n    c += b'1'\n    return len(b)\n", {"a": "bytes"}, "int", "$result == $a.len()", {}),
    ("def f(a):\n    b = bytearray(a)\n    c = b\n    c.extend(b'1')\n    return len(b)\n", {"a": "bytes"}, "int", "$result == $a.len()", {}),
]


def main():
    from pyv import prove as pv
    from pyv.spec import ClassSpec, Contract, Rais, Ret, Spec
    from pyv.world import World
    with tempfile.TemporaryDirectory(prefix="pyv_self_") as d:
        os.makedirs(d + "/src/pymt")
        open(d + "/src/pymt/__init__.py", "w").close()
        with open(d + "/src/pymt/traps.py", "w") as f:
            f.write(CLASSES)
            for i, t in enumerate(TRAPS):
                f.write("\n" + t[0].replace("f(", "f%d(" % i))
        w, spec = World(d), Spec()
        spec.classes["H"] = ClassSpec({"items": "list[int]", "n": "int"})
        spec.add(Contract("H.touch", {"self": "H"}, modifies=("self.n",), returns=Ret("none", ensures={"n": "$self'.n == 5"})))
        names = []
        for i, (src, ps, ret, claim, opt) in enumerate(TRAPS):
            c = Contract("f%d" % i, ps, returns=Ret(ret, ensures={"claim": claim}), modifies=opt.get("mod", ()),
                         requires={"r": opt["req"]} if "req" in opt else {}, loops=opt.get("loops", ()))
            spec.add(c)
            names.append(c.name)
        for cs in spec.contracts.values():
            for c in cs:
                c.libs, c.group = ["base"], "self"
        pv._w, pv._s = w, spec
        outs = pv.prove(names + ["H.touch"], jobs=7)
        bad = [n for n in names if outs[n].status == "proved"]
        if "-v" in sys.argv:
            for n in names:
                o = outs[n]
                print(n, o.status, str(o.unsupported[0])[-120:] if o.unsupported else [x[0] for x in o.failed][:2])
        assert outs["H.touch"].status == "proved"
        for n in bad:
            print("PROVED a false claim:", TRAPS[int(n[1:])][0])
        print("%d traps, %d proved" % (len(names), len(bad)))
        sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
