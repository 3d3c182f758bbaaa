"""Functions for the differential self-test: (source, list of argument tuples)."""
PRELUDE = '''
class Base(Exception):
    pass


class Err(Base):
    pass


class Box:
    LIMIT = 7

    def __init__(self, v, w=3):
        self.v = v
        self._w = w

    @property
    def w(self):
        return self._w

    @w.setter
    def w(self, x):
        self._w = x * 2

    def bump(self, by=1):
        self.v += by
        return self.v

    def __len__(self):
        return self._w

    def __eq__(self, other):
        if not isinstance(other, Box):
            return NotImplemented
        return self.v == other.v

    @staticmethod
    def make(v):
        return Box(v)

    def __contains__(self, x):
        return x == self.v

    def __getitem__(self, i):
        return self.v + i


class Sub(Box):
    def bump(self, by=1):
        return super().bump(by + 10)


def helper(a, b=2, c=3):
    return a * 100 + b * 10 + c


def boom(x):
    if x:
        raise Err("x")
    return 1
'''
B = [b"", b"a", b"abc", b"\x00\xff\x10", bytes(range(20))]
I = [-17, -8, -3, -1, 0, 1, 2, 3, 7, 8, 255, 256]


def f(body, *argss):
    return (body, list(argss))


def lam(sig, expr, *argss):
    return ("def f(%s):\n    return %s\n" % (sig, expr), list(argss))


def pairs(a, b):
    return [(x, y) for x in a for y in b]


CASES = [
    # integers
    lam("a, b", "(a + b, a - b, a * b)", (3, -4), (0, 7)),
    lam("a", "(a // 2, a % 2, -a, a * 3)", *[(x,) for x in I]),
    lam("a", "(a // -3, a % -3)", (-7,), (7,), (0,), (6,)),
    lam("a", "(a // 16, a % 16, a & 15, a >> 4, a & 0xf0)", (0,), (37,), (255,), (-1,), (-20,)),
    lam("a", "(a << 4, a * 16, (a << 4) + 5)", (0,), (5,), (15,), (-2,)),
    lam("a", "(a | 0x20, a & 1)", (0,), (0x10,), (0x31,), (3,)),
    lam("a, b", "a // b", (7, 2), (-7, 2), (7, -2), (5, 0)),
    lam("a", "(a + 1) // 2", *[(x,) for x in I]),
    lam("a, b", "(a < b, a <= b, a == b, a != b, a > b, a >= b)", (1, 2), (2, 2), (3, 2), (-1, 1)),
    lam("a", "0 <= a < 5", (-1,), (0,), (4,), (5,)),
    lam("a, b", "(min(a, b), max(a, b), abs(a))", (1, 2), (-5, 3), (4, 4)),
    lam("a", "bool(a)", (0,), (3,), (-1,)),
    lam("a", "int(a / 2)", (0,), (3,), (8,), (7,)),
    lam("a, b", "a and b", (0, 5), (3, 5), (3, 0)),
    lam("a, b", "a or b", (0, 5), (3, 5), (0, 0)),
    lam("a", "not a", (0,), (1,)),
    lam("a", "1 if a else 2", (True,), (False,)),
    lam("a", "a + True", (1,), (0,)),
    # bytes
    *[lam("s", "s[%s]" % sl, *[(x,) for x in B]) for sl in
      ("1:", ":1", ":-1", "-1:", "1:-1", "2:1", "-2:", ":-2", ":", "0:0", "-3:2", "5:10", ":2", "-30:2", "::2", "1::2", "0:4:2", "1:4:2")],
    *[lam("s, n", "s[%s]" % sl, *pairs([b"abc", b"", b"\x01\x02\x03\x04\x05"], [-7, -2, -1, 0, 1, 3, 9])) for sl in ("n:", ":n", "n:n+2", "-n:", "n:-1")],
    *[lam("s", "s[%d]" % i, *[(x,) for x in B]) for i in (0, 1, -1, 2, -3)],
    lam("s, n", "s[n]", *pairs([b"abc", b""], [-4, -3, -1, 0, 2, 3])),
    lam("s", "len(s)", *[(x,) for x in B]),
    lam("a, b", "a + b", (b"", b""), (b"a", b"bc")),
    lam("a, b", "(a == b, a != b)", (b"a", b"a"), (b"a", b"b"), (b"", b"a")),
    lam("a", "a == 'x'", (b"x",)),
    lam("a", "a == None", (b"x",), (1,)),
    lam("a", "a is None", (b"x",), (None,)),
    lam("a, b", "a == b", (bytearray(b"a"), b"a"), (b"a", bytearray(b"b"))),
    lam("a", "a * 3", (b"ab",), (b"",)),
    lam("a", "bytes([a])", (0,), (255,), (256,), (-1,)),
    lam("a", "bytes([a, 1]) + b'z'", (0,), (7,)),
    lam("a", "bytes(a)", (b"xy",), (bytearray(b"xy"),), ([1, 2],)),
    lam("a", "bytearray(a)", (b"xy",), (bytearray(b"q"),)),
    lam("a", "bytes(bytearray(a))", (b"xy",)),
    lam("a, b", "a.startswith(b)", (b"abc", b"ab"), (b"abc", b"b"), (b"a", b"abc"), (b"abc", b""), (b"", b"")),
    lam("a, b", "a.endswith(b)", (b"abc", b"bc"), (b"abc", b"b")),
    lam("a", "a.hex()", (b"",), (b"\x00\xffA",)),
    lam("a", "b''.join(a)", ([b"a", b"", b"bc"],), ([b"x"],)),
    lam("a, b", "b''.join([a, b])", (b"a", b"c")),
    lam("a, b", "b'-'.join([a, b])", (b"a", b"c")),
    lam("a", "int.from_bytes(a, 'big')", (b"",), (b"\x01",), (b"\x01\x02",), (b"\xff\x00\x01",)),
    lam("a", "(a).to_bytes(2, 'big')", (0,), (258,), (65535,), (65536,), (-1,)),
    lam("a", "a.to_bytes((a.bit_length() + 7) // 8, 'big')", (0,), (1,), (256,)),
    lam("a", "b'a' in a", (b"abc",), (b"xyz",), (b"",)),
    lam("a", "97 in a", (b"abc",), (b"xyz",)),
    lam("a", "list(a)", (b"abc",)),
    lam("a", "tuple(a)", (b"ab",)),
    lam("a", "a.decode('ascii')", (b"abc",), (b"",)),
    lam("a", "isinstance(a, (bytes, bytearray))", (b"",), (bytearray(b""),), (3,), ("s",), (None,)),
    lam("a", "isinstance(a, int)", (True,), (3,), (b"",)),
    lam("a", "a + 1", (b"x",), (1,)),
    lam("a", "a + 'x'", (b"x",), ("y",)),
    lam("a", "len(a)", (3,), (None,)),
    lam("a", "a[0]", (3,), (None,), ("",), ("xy",)),
    lam("a, b", "a < b", (b"a", b"b"), (b"b", b"a"), (b"", b"a"), (b"a", b"a")),
    # strings
    lam("a", "a.encode('ascii')", ("abc",), ("",)),
    lam("a, b", "a + b", ("x", "y")),
    lam("a, b", "a == b", ("x", "y"), ("x", "x")),
    lam("a", "len(a)", ("",), ("abc",)),
    lam("a", "a[1:]", ("abc",), ("",)),
    lam("a", "a.upper() + a.lower()", ("aBc",), ("",)),
    lam("a", "str(a)", (5,), (-12,), ("q",)),
    lam("a, b", "a in b", ("b", "abc"), ("", "x"), ("x", "abc")),
    lam("a", "bytes.fromhex(a)", ("",), ("00fF",), ("0",), ("zz",), ("00 11",)),
    lam("a", "hex(a)", (0,), (255,), (-3,)),
    lam("a", "a.split(',')", ("a,b",), ("",)),
    # tuples and lists
    lam("a, b", "(a, b)[0]", (1, b"x")),
    lam("a, b", "(a, b) == (1, b'x')", (1, b"x"), (2, b"x")),
    lam("a", "[a, 2][1]", (1,)),
    lam("a", "a[0]", ([1, 2],), ([],)),
    lam("a", "a[-1]", ([1, 2],), ([b"x"],)),
    lam("a, i", "a[i]", ([1, 2], 1), ([1, 2], 2), ([1, 2], -2), ([1, 2], -3)),
    lam("a", "a[1:]", ([1, 2, 3],), ([1],)),
    lam("a", "a[::2]", ([1, 2, 3],), ([1, 2],)),
    lam("a", "a[0:2:2]", ([1, 2, 3],), ([1, 2],)),
    lam("a", "a[1:2:2]", ([1, 2, 3],), ([1, 2],)),
    lam("a, n", "a[0:n:2]", ([1, 2, 3, 4], 3), ([1, 2], 2), ([1, 2, 3], 0)),
    lam("a, b", "a + b", ([1], [2, 3])),
    lam("a", "[a] + [5]", (1,)),
    lam("a", "len(a)", ([],), ([b"a"],)),
    lam("a, b", "a in b", (1, [1, 2]), (3, [1, 2]), (b"x", [b"x"])),
    lam("a", "sum(a)", ([1, 2, 3],)),
    lam("a", "a.index(2)", ([1, 2, 2],), ([1],)),
    lam("a", "[x + 1 for x in a]", ([1, 2],)),
    lam("a", "[x for x in a if x > 1]", ([1, 2, 3],)),
    lam("a", "[b'' for _ in range(3)] + [a]", (b"x",)),
    lam("a", "[b''] * 3 + [a]", (b"x",)),
    lam("a", "list(reversed(a))", ([1, 2, 3],)),
    lam("a", "list(enumerate(a))", ([5, 6],)),
    lam("a, b", "list(zip(a, b))", ([5, 6], [b"x", b"y"])),
    lam("a", "any(x == 2 for x in a)", ([1, 2],), ([1],)),
    lam("a", "all(x == 2 for x in a)", ([2, 2],), ([1],)),
    lam("a", "all(a)", ([2, 0],), ([1],)),
    lam("a", "list(range(a))", (0,), (3,), (-1,)),
    lam("a", "list(range(1, a, 2))", (0,), (6,), (5,)),
    lam("a", "[i for i in range(a, 0, -1)]", (3,), (0,)),
    lam("a", "sorted(a)", ([3, 1],)),
    lam("a", "list(map(len, a))", ([b"", b"ab"],)),
    lam("a", "a == [1, 2]", ([1, 2],), ([1],)),
    lam("a", "tuple(a) == (1, 2)", ([1, 2],)),
    lam("a", "bool(a)", ([],), ([1],), (b"",), (b"x",), ("",)),
    f("def f(a):\n    a.append(5)\n    return a\n", ([1],), ([],) if False else ([2, 3],)),
    f("def f(a):\n    b = a\n    b.append(5)\n    return a\n", ([1],)),
    f("def f(a):\n    b = a[:]\n    b.append(5)\n    return a\n", ([1],)),
    f("def f(a):\n    b = list(a)\n    b.append(5)\n    return (len(a), len(b))\n", ([1],)),
    f("def f(a):\n    b = a.copy()\n    b[0] = 9\n    return (a[0], b[0])\n", ([1],)),
    f("def f(a):\n    b = a\n    b += [7]\n    return a\n", ([1],)),
    f("def f(a):\n    b = a\n    b = b + [7]\n    return a\n", ([1],)),
    f("def f(a):\n    a[-1] = 7\n    return a\n", ([1, 2],), ([3],)),
    f("def f(a):\n    a.insert(0, 7)\n    return a\n", ([1, 2],)),
    f("def f(a):\n    x = a.pop()\n    return (x, a)\n", ([1, 2],)),
    f("def f(a):\n    x = a.pop(0)\n    return (x, a)\n", ([1, 2],)),
    f("def f(a):\n    a.extend([8, 9])\n    return a\n", ([1, 2],)),
    f("def f(a):\n    del a[0]\n    return a\n", ([1, 2],)),
    f("def f(a):\n    x, y = a\n    return x * 10 + y\n", ([1, 2],), ([1],), ([1, 2, 3],)),
    f("def f(a, b):\n    a, b = b, a\n    return (a, b)\n", (1, 2)),
    f("def f(a):\n    l = [[a], [a]]\n    l[0].append(2)\n    return l[1]\n", (1,)),
    f("def f(a):\n    m = [a]\n    l = [m, m]\n    l[0].append(2)\n    return l[1]\n", (1,)),
    f("def f(a):\n    s = 0\n    for x in [1, 2, a]:\n        s = s * 10 + x\n    return s\n", (5,)),
    f("def f(a):\n    r = b''\n    for x in [b'1', a]:\n        if x == b'q':\n            continue\n        if x == b'z':\n            break\n        r += x\n    else:\n        r += b'!'\n    return r\n", (b"q",), (b"z",), (b"k",)),
    # dicts
    lam("a", "a[b'k']", ({b"k": b"v"},), ({b"z": b"v"},)),
    lam("a", "b'k' in a", ({b"k": b"v"},), ({},)),
    lam("a", "len(a)", ({b"k": b"v"},), ({b"a": b"1", b"b": b"2"},)),
    lam("a", "a.get(b'k', b'd')", ({b"k": b"v"},), ({b"z": b"v"},)),
    f("def f(a):\n    a[b'x'] = b'y'\n    return a\n", ({b"k": b"v"},), ({b"x": b"v"},)),
    f("def f(a):\n    b = a.copy()\n    b[b'x'] = b'y'\n    return (a, b)\n", ({b"k": b"v"},)),
    f("def f(a):\n    del a[b'k']\n    return a\n", ({b"k": b"v"},), ({b"x": b"v"},)),
    f("def f(a):\n    x = a.pop(b'k')\n    return (x, a)\n", ({b"k": b"v"},), ({b"x": b"v"},)),
    f("def f(a):\n    x = a.pop(b'k', b'd')\n    return (x, a)\n", ({b"k": b"v"},), ({b"x": b"v"},)),
    f("def f(a):\n    b = {}\n    b.update(a)\n    b[b'n'] = b'm'\n    return (len(a), b)\n", ({b"k": b"v"},)),
    f("def f(a):\n    b = dict(a)\n    b[b'n'] = b'm'\n    return (a, b)\n", ({b"k": b"v"},)),
    f("def f(a):\n    a.clear()\n    return a\n", ({b"k": b"v"},)),
    f("def f(k):\n    d = {b'a': b'1'}\n    d[k] = b'2'\n    return (len(d), d[b'a'])\n", (b"a",), (b"b",)),
    f("def f(k):\n    d = {'x': 1, 'y': 2}\n    return d[k]\n", ("x",), ("y",), ("z",)),
    lam("a", "{k: v for k, v in a.items() if k != b'k'}", ({b"k": b"v", b"q": b"w"},)),
    lam("a", "list(a.keys())", ({b"k": b"v"},)),
    lam("a", "list(a.values())", ({b"k": b"v"},)),
    f("def f(a):\n    d = {1: a}\n    e = d\n    e[2] = a\n    return len(d)\n", (1,)),
    # exceptions
    f("def f(x):\n    try:\n        return boom(x)\n    except Err:\n        return 2\n", (True,), (False,)),
    f("def f(x):\n    try:\n        return boom(x)\n    except Base:\n        return 2\n", (True,), (False,)),
    f("def f(x):\n    try:\n        return boom(x)\n    except KeyError:\n        return 2\n", (True,), (False,)),
    f("def f(x):\n    try:\n        return boom(x)\n    except (KeyError, Err) as e:\n        raise ValueError('q') from e\n", (True,), (False,)),
    f("def f(x):\n    y = 0\n    try:\n        y = boom(x)\n    except Exception:\n        y += 5\n    else:\n        y += 20\n    finally:\n        y += 100\n    return y\n", (True,), (False,)),
    f("def f(x):\n    try:\n        return boom(x)\n    finally:\n        x = False\n", (True,), (False,)),
    f("def f(x):\n    try:\n        boom(x)\n    except:\n        return 9\n    return 8\n", (True,), (False,)),
    f("def f(x):\n    try:\n        boom(x)\n    except Err:\n        raise\n    return 8\n", (True,), (False,)),
    f("def f(a):\n    try:\n        return a[3]\n    except IndexError:\n        return -1\n", (b"ab",), (b"abcd",)),
    f("def f(a):\n    try:\n        return a[b'q']\n    except LookupError:\n        return b''\n", ({b"q": b"1"},), ({b"z": b"1"},)),
    f("def f(a):\n    if a > 3:\n        raise KeyError('x')\n    elif a == 2:\n        raise Err\n    return a\n", (5,), (2,), (1,)),
    f("def f(a):\n    assert a > 3\n    return a\n", (5,), (2,)),
    # objects
    f("def f(a):\n    b = Box(a)\n    b.bump()\n    b.bump(5)\n    return (b.v, b.w, len(b))\n", (1,)),
    f("def f(a):\n    b = Sub(a, w=9)\n    b.bump()\n    return (b.v, b.w)\n", (1,)),
    f("def f(a):\n    b = Box(a)\n    c = b\n    c.bump()\n    return b.v\n", (1,)),
    f("def f(a):\n    b = Box(a)\n    b.w = 4\n    return b.w\n", (1,)),
    f("def f(a):\n    return (Box(a) == Box(1), Box(a) != Box(1), Box(a) == 3)\n", (1,), (2,)),
    f("def f(a):\n    return (a in Box(1), Box(1)[a])\n", (1,), (2,)),
    f("def f(a):\n    return Box.make(a).v + Box.LIMIT + Box(a).LIMIT\n", (1,)),
    f("def f(a):\n    return isinstance(Sub(a), Box) and not isinstance(Box(a), Sub)\n", (1,)),
    f("def f(a):\n    return type(Sub(a)) is Sub\n", (1,)),
    f("def f(a):\n    return Box(a).nope\n", (1,)),
    f("def f(a):\n    return Box(a) is Box(a)\n", (1,)),
    f("def f(a):\n    b = Box(a)\n    return b is b\n", (1,)),
    f("def f(a):\n    b = Box([a])\n    c = b.v\n    c.append(2)\n    return b.v\n", (1,)),
    f("def f(a):\n    bool_box = Box(1, w=a)\n    return 1 if bool_box else 0\n", (0,), (1,)),
    # functions
    lam("a", "helper(a)", (1,)),
    lam("a", "helper(a, c=7)", (1,)),
    lam("a", "helper(b=a, a=9)", (1,)),
    lam("a", "helper(*[a, 4])", (1,)) if False else lam("a", "helper(a, 4, 5)", (1,)),
    lam("a", "helper(a, 4, 5, 6)", (1,)),
    f("def f(a):\n    def g(x):\n        return x + a\n    return g(2)\n", (1,)),
    f("def f(a):\n    g = lambda x: x + a\n    a = 10\n    return g(2)\n", (1,)),
    f("def f(a):\n    g = boom\n    return g(a)\n", (True,), (False,)),
    f("def f(a):\n    x = (y := a + 1) * 2\n    return x + y\n", (1,)),
    f("def f(a):\n    if a:\n        z = 1\n    return z\n", (True,), (False,)),
    f("def f(a):\n    a += 1\n    a *= 2\n    a -= 3\n    a //= 2\n    return a\n", (1,), (5,)),
    f("def f(a):\n    a += b'x'\n    return a\n", (b"1",)),
    f("def f(a):\n    s = a\n    while s > 3:\n        s -= 1\n    return 3\n", (1,), (9,)),
    # slices of slices, dictionaries by content and by keyword, values replaced while iterating
    lam("a", "a[:4][1:3]", (b"abcdef",), (b"ab",), (b"",)),
    lam("a", "a[2:][:2] + a[1:4][1:][1:]", (b"abcdef",), (b"abc",), (b"",)),
    lam("a", "a[1:-1][:-1]", (b"abcdef",), (b"a",)),
    lam("a", "dict(x=a, y=1)['x']", (5,)),
    lam("a, b", "dict(x=a, y=b) == {'y': b, 'x': a}", (5, 6)),
    lam("a, b", "{'x': a} == {'x': b}", (5, 6), (5, 5), (5, b"5"), (True, 1), (b"a", bytearray(b"a"))),
    lam("a, b", "{'x': a} == {'y': b}", (5, 5)),
    lam("a, b", "(a, 1) == (b, 1)", (b"a", bytearray(b"a")), (1, True), (b"a", "a")),
    f("def f(a):\n    d = {'x': a, 'y': b'z'}\n    for k, v in d.items():\n        d[k] = v + b'!'\n    return (d['x'], d['y'], len(d))\n", (b"1",)),
    f("def f(a):\n    d = {'x': a, 'y': b'z'}\n    for k, v in d.items():\n        d[k + 'x'] = v\n    return len(d)\n", (b"1",)),
    f("def f(a):\n    d = {'x': a}\n    e = d.copy()\n    for k, v in e.items():\n        e[k] = 5\n    return (d['x'], e['x'])\n", (b"1",)),
    lam("a", "[(x, b'1') for x in a]", ([b"a", b"b"],)),
    lam("a", "[x.decode() for x in a]", ([b"a", b"b"],), ([],)),
    lam("a", "[x for x in a]", ("abc",)),
    lam("a", "b'a' in a", (None,), (5,), ([b"a"],)),
    lam("a", "a.nope()", (b"a",), ("a",), ([1],), ({b"a": 1},)),
    lam("a", "a.lower() == 'proof'", ("PROOF",), ("x",)),
    lam("a", "str(a) == 'x'", ("x",), ("y",)),
    # bytes built up in local bytearrays, starred targets, nested and filtering comprehensions, bitwise or
    f("def f(a, b):\n    x = bytearray()\n    x.append(a)\n    x += b\n    x.append(a + 1)\n    return bytes(x)\n", (1, b"zz"), (255, b""), (-1, b""), ("x", b"")),
    f("def f(a, b):\n    x = bytearray(b)\n    for i in range(3):\n        x.append(i * a)\n    return (len(x), x[1], bytes(x))\n", (2, b"q"), (200, b"q"), (0, b"")),
    f("def f(a):\n    x = bytearray(a)\n    y = x\n    y += b'z'\n    return bytes(x)\n", (b"q",)),
    f("def f(a):\n    x = bytearray(a)\n    x += [1, 2]\n    return bytes(x)\n", (b"q",)),
    f("def f(a):\n    x = bytearray(a)\n    try:\n        return x\n    finally:\n        x.append(1)\n", (b"q",)),
    f("def f(a):\n    x, *y = a\n    return (x, len(y), y[0])\n", (b"abc",), (b"ab",), (b"a",), (b"",), ([1, 2],), ([1],), ((1, 2, 3),)),
    f("def f(a):\n    *x, y = a\n    return (len(x), y)\n", (b"abc",), (b"a",), (b"",), ([1, 2],), ([],)),
    f("def f(a):\n    x, *y, z = a\n    return (x, y, z)\n", (b"abcd",), (b"ab",), (b"a",), ([1, 2, 3],)),
    lam("a", "[x + y for x in a for y in (1, 2)]", ([1, 5],), ([],)),
    lam("a", "len([x for x in a if x > 3])", ([1, 5, 9],), ([],)),
    lam("a", "[x for x in a if x]", (b"a\x00b",), (b"",)),
    lam("a", "[x * 2 for x in a if x > 3 if x < 9]", ([1, 5, 9],)),
    lam("a", "sum(1 for x in a if len(x) > 0)", ([b"a", b"", b"c"],), ([],)),
    lam("a", "{x: 1 for x in a if x != b'b'}[b'a']", ([b"a", b"b"],), ([b"b"],)),
    lam("a", "b''.join([x for x in a if x != 5])", ([b"a", b"b"],), ([],)),
    lam("a", "b'-'.join(a)", ([1, 2],), ([],), ([b"a"],)),
    lam("a, b", "a | b", (1, 2), (48, 15), (-1, 5), (-16, 3), (-32, 3), (255, 256)),
    lam("a, b", "(a << 4) | b", (3, 2), (15, 15), (1, 16), (-1, 5)),
    lam("a, b", "0x20 | 0x10 | b", (3, 2), (15, 15), (1, 16), (-1, -5)),
    # options of built-ins, text and bytes by constructor, match, starred displays, symbolic tuples
    lam("a", "bytes(a, 'utf-8')", ("abc",), ("\xe9",), ("",)),
    lam("a", "bytes(a, encoding='utf-8')", ("abc",)),
    lam("a", "str(a, 'utf-8') == 'abc'", (b"abc",), (b"x",), (b"\xff",)),
    lam("a", "bytearray(a, 'ascii') == b'abc'", ("abc",)),
    lam("a", "a.startswith(b'b', 1)", (b"ab",), (b"bb",), (b"ba",)),
    lam("a", "int(a, base=16)", ("ff",), ("0",), ("g",)),
    lam("a", "a.hex(':')", (b"ab",)),
    lam("a", "str() + a", ("x",)),
    f("def f(a):\n    match a:\n        case 1:\n            return 'one'\n        case 2 | 3:\n            return 'few'\n        case _:\n            return 'many'\n", (1,), (2,), (3,), (4,), (b"1",), (True,)),
    f("def f(a, b):\n    match (a, b):\n        case (0, x):\n            return x\n        case (x, 0):\n            return x + 100\n        case (x, y) if a > 5:\n            return x + y\n    return None\n", (0, 7), (7, 0), (8, 9), (1, 2)),
    f("def f(a):\n    match a:\n        case []:\n            return 0\n        case [x]:\n            return x\n        case [x, y]:\n            return x + y\n        case _:\n            return -1\n", ([],), ([5],), ([5, 6],), ([1, 2, 3],), (b"ab",), ((1, 2),), (None,)),
    f("def f(a):\n    match a:\n        case None:\n            return 1\n        case bytes():\n            return 2\n        case str() as s:\n            return s\n        case (x, (y, _)):\n            return y\n    return 9\n", (None,), (b"x",), ("t",), ((1, (2, 3)),), ((1, 2),), (5,)),
    f("def f(a):\n    x = 5\n    match a:\n        case x:\n            pass\n    return x\n", (1,), (b"q",)),
    lam("a", "[0, *a, 9]", ([1, 2],), ([],), (b"ab",), ((4, 5),), (5,)),
    lam("a, b", "[*a, *b][0]", ([1, 2], [3]), ([], [4]), ([], [])),
    lam("a", "(0, *a)", ([1, 2],), ((),)),
    lam("a", "len([*a, *a])", ([1, 2],), (b"abc",)),
    f("def f(a):\n    b = [*a]\n    b.append(5)\n    return (len(a), len(b))\n", ([1],), ([],)),
    f("def f(a):\n    *x, y = a\n    return (y, len(x), x[0])\n", ((1, 2, 3),), ((1,),), ((),)),
    lam("a", "b''.join([b'x', b'y'] + [bytearray(x) for x in a])", ([b"a", b"b"],), ([],)),
    lam("a, b", "([bytearray(x) for x in a] + b)[0]", ([b"a"], [b"b"]), ([], [b"b"]), ([], [])),
]
