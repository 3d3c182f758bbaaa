"""Symbolic values, heap records and type descriptors of the pyv front end."""
import re


class Unsupported(Exception):
    """The front end has no sound translation for this construct."""

    def __init__(self, msg, node=None):
        super().__init__(msg)
        self.node = node
        self.line = getattr(node, "lineno", None)


# ---------------------------------------------------------------- types
class Ty:
    """Type descriptor: kind plus arguments."""

    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args

    def __repr__(self):
        return self.kind + ("[" + ",".join(map(repr, self.args)) + "]" if self.args else "")

    def __eq__(self, o):
        return isinstance(o, Ty) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


_ty_cache = {}


def parse_ty(s):
    if isinstance(s, Ty):
        return s
    if s in _ty_cache:
        return _ty_cache[s]
    toks = re.findall(r"[A-Za-z_][\w.]*|[\[\],|]", s)
    pos = 0

    def atom():
        nonlocal pos
        name = toks[pos]
        pos += 1
        args = []
        if pos < len(toks) and toks[pos] == "[":
            pos += 1
            while toks[pos] != "]":
                args.append(alt())
                if toks[pos] == ",":
                    pos += 1
            pos += 1
        return Ty(name, *args)

    def alt():
        nonlocal pos
        alts = [atom()]
        while pos < len(toks) and toks[pos] == "|":
            pos += 1
            alts.append(atom())
        return alts[0] if len(alts) == 1 else Ty("alt", *alts)

    t = alt()
    if pos != len(toks):
        raise ValueError("bad type " + s)
    _ty_cache[s] = t
    return t


# ---------------------------------------------------------------- values
class V:
    pass


class VInt(V):
    def __init__(self, t, c=None):
        self.t = t if c is None else (str(c) if c >= 0 else "(%d)" % c)
        self.c = c

    @staticmethod
    def const(c):
        return VInt(None, c)


class VBool(V):
    def __init__(self, t, c=None):
        self.c = c
        self.t = t if c is None else ("true" if c else "false")

    @staticmethod
    def const(c):
        return VBool(None, bool(c))


class VRat(V):
    """num/den of a true division by a positive constant (exactly 2**k)."""

    def __init__(self, num, den):
        self.num, self.den = num, den


class VNoneT(V):
    pass


VNone = VNoneT()


class VEllT(V):
    pass


VEll = VEllT()


def lit_seq(vals):
    vals = list(vals)
    if not vals:
        return "Seq::<int>::empty()"
    return "seq![" + ", ".join("%dint" % v for v in vals) + "]"


class VBytes(V):
    def __init__(self, t, kind="bytes", c=None):
        self.kind = kind
        self.c = c
        self.t = lit_seq(c) if (c is not None) else t


class VStr(V):
    """String; the term is its sequence of code points (None: unknown text)."""

    def __init__(self, t=None, c=None, ascii=False):
        self.c = c
        self.t = lit_seq(map(ord, c)) if c is not None else t
        self.ascii = ascii or (c is not None and c.isascii())


class VTuple(V):
    def __init__(self, items):
        self.items = list(items)


class VRef(V):
    def __init__(self, loc):
        self.loc = loc


class VFunc(V):
    def __init__(self, node, module, cls=None, qual=None, closure=None, is_static=False):
        self.node, self.module, self.cls, self.qual = node, module, cls, qual
        self.closure = closure
        self.is_static = is_static


class VBound(V):
    def __init__(self, recv, func):
        self.recv, self.func = recv, func


class VBuiltinMethod(V):
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class VClass(V):
    def __init__(self, name):
        self.name = name


class VExt(V):
    """External module/function/class identified by dotted name."""

    def __init__(self, name, data=None):
        self.name = name
        self.data = data


class VEnum(V):
    def __init__(self, cls, member):
        self.cls, self.member = cls, member


class VOpaque(V):
    def __init__(self, desc):
        self.desc = desc


class VUnion(V):
    """Tagged union value; `u` names the union, `t` is the Verus term."""

    def __init__(self, u, t):
        self.u, self.t = u, t


class VIter(V):
    """Lazy iterable: either concrete list `items` or symbolic (length, elem)."""

    def __init__(self, items=None, length=None, elem=None, ety=None, seq=None):
        self.items, self.length, self.elem, self.ety = items, length, elem, ety
        self.seq = seq
        self.keys = (seq, ety) if seq is not None else None    # the sequence behind it (the keys of a dict) and the type of its elements
        self.srcs = {}        # loc -> heap record of the containers it reads
        self.once = False     # an iterator (not a view): can be consumed once


class VSuper(V):
    def __init__(self, cls, recv):
        self.cls, self.recv = cls, recv


class VExcObj(V):
    def __init__(self, classes):
        self.classes = classes


class VCtx(V):
    """value of a sedes / configuration object"""

    def __init__(self, kind, data):
        self.kind, self.data = kind, data


class Exc:
    """Exceptional outcome; `classes`: possible exception class names ('*': any)."""

    def __init__(self, classes, line=None, why=""):
        self.classes = frozenset(classes)
        self.line = line
        self.why = why


# ---------------------------------------------------------------- heap records
class Inst:
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def set(self, k, v):
        f = dict(self.fields)
        f[k] = v
        return Inst(self.cls, f)


class LList:
    def __init__(self, items):
        self.items = tuple(items)


class SList:
    def __init__(self, term, ety):
        self.term, self.ety = term, ety


class CDict:
    def __init__(self, items):
        self.items = tuple(items)


class SDict:
    def __init__(self, term, kty, vty):
        self.term, self.kty, self.vty = term, kty, vty


class Dead:
    """Content no longer known; any use is outside the front end."""

    def __init__(self, why):
        self.why = why
