"""Models of Python built-ins, containers and the external libraries pymt uses."""
import ast
import re

from .values import *


def add(a, b):
    """Simplified a + b for int terms."""
    if re.fullmatch(r"-?\d+", a) and re.fullmatch(r"-?\d+", b):
        return str(int(a) + int(b))
    if a == "0":
        return b
    if b == "0":
        return a
    return "(%s + %s)" % (a, b)


def sub(a, b):
    if re.fullmatch(r"-?\d+", a) and re.fullmatch(r"-?\d+", b):
        v = int(a) - int(b)
        return str(v) if v >= 0 else "(%d)" % v
    if b == "0":
        return a
    return "(%s - %s)" % (a, b)


class Builtins:
    def __init__(self, eng):
        self.e = eng
        self.inlines = {}
        from . import ext_model
        self.x = ext_model.Ext(eng, self)

    # ------------------------------------------------------------ truth / compare
    def truth(self, v, st, node):
        if isinstance(v, VBool):
            yield st, v
        elif isinstance(v, VInt):
            yield st, (VBool.const(v.c != 0) if v.c is not None else VBool("%s != 0" % v.t))
        elif isinstance(v, VBytes):
            yield st, (VBool.const(len(v.c) > 0) if v.c is not None else VBool("%s.len() != 0" % v.t))
        elif isinstance(v, VStr):
            if v.c is not None:
                yield st, VBool.const(bool(v.c))
            elif v.t is None:
                raise Unsupported("truth of unknown text", node)
            else:
                yield st, VBool("%s.len() != 0" % v.t)
        elif v is VNone:
            yield st, VBool.const(False)
        elif v is VEll or isinstance(v, (VFunc, VClass, VEnum, VBound, VExt)):
            yield st, VBool.const(True)
        elif isinstance(v, VTuple):
            yield st, VBool.const(len(v.items) > 0)
        elif isinstance(v, VUnion):
            if v.u.startswith("tupleof"):
                yield st, VBool("%s.len() != 0" % v.t)
                return
            for s1, x in self.e.union_cases(v, st):
                yield from self.truth(x, s1, node)
        elif isinstance(v, VRef):
            h = st.heap[v.loc]
            if isinstance(h, Inst):
                if h.cls.startswith("ext:"):
                    yield st, VBool.const(True)
                    return
                f, c = self.e.w.find_method(h.cls, "__bool__")
                if f is not None:
                    for s1, r in self.e.call_func(f, [v], {}, st, node):
                        yield s1, r
                    return
                f, c = self.e.w.find_method(h.cls, "__len__")
                if f is None:
                    yield st, VBool.const(True)
                    return
                for s1, r in self.e.call_func(f, [v], {}, st, node):
                    if isinstance(r, Exc):
                        yield s1, r
                    else:
                        yield s1, VBool("%s != 0" % r.t)
            elif isinstance(h, LList):
                yield st, VBool.const(len(h.items) > 0)
            elif isinstance(h, SList):
                yield st, VBool("%s.len() != 0" % h.term)
            elif isinstance(h, CDict):
                yield st, VBool.const(len(h.items) > 0)
            else:
                yield st, VBool("%s.dom().len() != 0" % h.term)
        else:
            raise Unsupported("truth of " + type(v).__name__, node)

    def compare(self, op, a, b, st, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            for s1, r in self.is_(a, b, st, node):
                yield s1, self.negb(r) if isinstance(op, ast.IsNot) else r
        elif isinstance(op, ast.Eq):
            yield from self.eq(a, b, st, node)
        elif isinstance(op, ast.NotEq):
            ne = None
            if isinstance(a, VRef) and isinstance(st.heap[a.loc], Inst) and not st.heap[a.loc].cls.startswith("ext:"):
                ne, _ = self.e.w.find_method(st.heap[a.loc].cls, "__ne__")
            if ne is not None:
                yield from self.e.call_func(ne, [a, b], {}, st, node)
                return
            for s1, r in self.eq(a, b, st, node):
                yield s1, (r if isinstance(r, Exc) else self.negb(r))
        elif isinstance(op, (ast.In, ast.NotIn)):
            for s1, r in self.contains(b, a, st, node):
                if isinstance(r, Exc):
                    yield s1, r
                else:
                    yield s1, self.negb(r) if isinstance(op, ast.NotIn) else r
        else:
            yield from self.order(op, a, b, st, node)

    def negb(self, r):
        from .engine import neg
        if isinstance(r, Exc):
            return r
        return VBool.const(not r.c) if r.c is not None else VBool(neg(r.t))

    def order(self, op, a, b, st, node):
        if isinstance(a, VUnion) and not isinstance(b, Exc):
            for s1, x in self.e.union_cases(a, st):
                yield from self.order(op, x, b, s1, node)
            return
        if isinstance(b, VUnion):
            for s1, x in self.e.union_cases(b, st):
                yield from self.order(op, a, x, s1, node)
            return
        sym = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
        a, b = self.as_int(a), self.as_int(b)
        if isinstance(a, VInt) and isinstance(b, VInt):
            if a.c is not None and b.c is not None:
                yield st, VBool.const({"<": a.c < b.c, "<=": a.c <= b.c, ">": a.c > b.c, ">=": a.c >= b.c}[sym])
            else:
                # canonical form so that a test and its mirror image are recognised
                if sym in (">", ">="):
                    a, b, sym = b, a, {">": "<", ">=": "<="}[sym]
                if sym == "<=":
                    yield st, VBool("!(%s < %s)" % (b.t, a.t))
                else:
                    yield st, VBool("%s < %s" % (a.t, b.t))
            return
        if (a is VNone or b is VNone) or (isinstance(a, VBytes) != isinstance(b, VBytes)):
            yield st, Exc(["TypeError"], getattr(node, "lineno", None), "ordering")
            return
        raise Unsupported("ordering of %s and %s" % (type(a).__name__, type(b).__name__), node)

    def as_int(self, v):
        if isinstance(v, VBool):
            return VInt.const(int(v.c)) if v.c is not None else VInt("(if %s { 1int } else { 0int })" % v.t)
        return v

    def is_(self, a, b, st, node):
        if isinstance(b, VUnion) and not isinstance(a, VUnion):
            a, b = b, a
        if isinstance(a, VUnion):
            if a.u.startswith("opt:") and b is VNone:
                yield st, VBool("%s is None" % a.t)
                return
            for s1, x in self.e.union_cases(a, st):
                if isinstance(x, VUnion):
                    yield s1, VBool.const(False)
                else:
                    yield from self.is_(x, b, s1, node)
            return
        for p, q in ((a, b), (b, a)):
            if p is VNone or p is VEll:
                yield st, VBool.const(q is p)
                return
            if isinstance(p, (VClass, VExt)):
                yield st, VBool.const(type(q) is type(p) and self.clsname(q) == self.clsname(p))
                return
            if isinstance(p, VEnum):
                yield st, VBool.const(isinstance(q, VEnum) and (q.cls, q.member) == (p.cls, p.member))
                return
            if isinstance(p, VBool):
                if isinstance(q, VBool):
                    yield from self.eq(a, b, st, node)
                else:
                    yield st, VBool.const(False)
                return
        if isinstance(a, VRef) and isinstance(b, VRef):
            yield st, VBool.const(a.loc == b.loc)
            return
        if isinstance(a, VRef) != isinstance(b, VRef):
            yield st, VBool.const(False)
            return
        raise Unsupported("identity of values", node)

    def clsname(self, v):
        return v.name.split(".")[-1]

    def structural(self, ty):
        """Whether Python's equality of such values is equality of their terms."""
        ty = parse_ty(ty.replace("opt:", "opt ").replace("opt ", "") if isinstance(ty, str) else ty)
        if ty.kind in ("bytes", "bytearray", "byteslike", "str", "astr", "int", "bool", "item", "entry"):
            return True
        return ty.kind in ("tupleof", "list", "tuple", "opt", "dict") and all(self.structural(a) for a in ty.args)

    def eq(self, a, b, st, node):
        # user-defined equality
        for p, q in ((a, b), (b, a)):
            if isinstance(p, VRef) and isinstance(st.heap[p.loc], Inst) and not st.heap[p.loc].cls.startswith("ext:"):
                f, c = self.e.w.find_method(st.heap[p.loc].cls, "__eq__")
                if f is not None:
                    for s0, x in (self.e.union_cases(q, st) if isinstance(q, VUnion) else [(st, q)]):
                        for s1, r in self.e.call_func(f, [p, x], {}, s0, node):
                            if not (isinstance(r, VExt) and r.name.split(".")[-1] == "NotImplemented"):
                                yield s1, r
                            elif isinstance(x, VRef) and isinstance(s1.heap[x.loc], Inst):
                                if self.e.w.find_method(s1.heap[x.loc].cls, "__eq__")[0] is not None:
                                    raise Unsupported("reflected comparison", node)
                                yield s1, VBool.const(p.loc == x.loc)
                            else:
                                yield s1, VBool.const(False)
                    return
                if p is a and isinstance(q, VRef) and isinstance(st.heap[q.loc], Inst):
                    continue
                if isinstance(q, VRef):
                    yield st, VBool.const(p.loc == q.loc)
                else:
                    yield st, VBool.const(False)
                return
        if isinstance(a, VUnion) or isinstance(b, VUnion):
            if isinstance(a, VUnion) and isinstance(b, VUnion) and a.u == b.u and self.structural(a.u):
                yield st, VBool("%s == %s" % (a.t, b.t))
                return
            if isinstance(b, VUnion) and not isinstance(a, VUnion):
                a, b = b, a
            if a.u.startswith("opt:"):
                if b is VNone:
                    yield st, VBool("%s is None" % a.t)
                    return
                if isinstance(b, (VBytes,)) and a.u in ("opt:bytes",):
                    yield st, VBool("%s == Some(%s)" % (a.t, b.t))
                    return
            for s1, x in self.e.union_cases(a, st):
                if isinstance(x, VUnion):
                    raise Unsupported("comparison of symbolic tuples", node)
                yield from self.eq(x, b, s1, node)
            return
        yield st, self.eq_plain(a, b, st, node)

    def eq_plain(self, a, b, st, node):
        if a is VNone or b is VNone:
            return VBool.const(a is b)
        if a is VEll or b is VEll:
            return VBool.const(a is b)
        if isinstance(a, (VBool, VInt)) and isinstance(b, (VBool, VInt)):
            if isinstance(a, VBool) and isinstance(b, VBool):
                if a.c is not None and b.c is not None:
                    return VBool.const(a.c == b.c)
                for p, q in ((a, b), (b, a)):
                    if p.c is True:
                        return q
                    if p.c is False:
                        return self.negb(q)
                return VBool("(%s <==> %s)" % (a.t, b.t))
            a, b = self.as_int(a), self.as_int(b)
            if a.c is not None and b.c is not None:
                return VBool.const(a.c == b.c)
            if a.c is not None:
                a, b = b, a
            return VBool("%s == %s" % (a.t, b.t))
        if isinstance(a, VBytes) and isinstance(b, VBytes):
            if a.c is not None and b.c is not None:
                return VBool.const(a.c == b.c)
            if a.c is not None:
                a, b = b, a
            if b.c is not None and len(b.c) == 0:
                return VBool("!(%s.len() != 0)" % a.t)
            if a.t == b.t:
                return VBool.const(True)
            return VBool("%s =~= %s" % (a.t, b.t))
        if isinstance(a, VStr) and isinstance(b, VStr):
            if a.c is not None and b.c is not None:
                return VBool.const(a.c == b.c)
            if a.t is None or b.t is None:
                raise Unsupported("comparison of unknown text", node)
            return VBool("%s =~= %s" % (a.t, b.t))
        if isinstance(a, VTuple) and isinstance(b, VTuple):
            if len(a.items) != len(b.items):
                return VBool.const(False)
            r = [self.eq_plain(x, y, st, node) for x, y in zip(a.items, b.items)]
            if any(x.c is False for x in r):
                return VBool.const(False)
            r = [x for x in r if x.c is None]
            if not r:
                return VBool.const(True)
            return VBool(" && ".join("(%s)" % x.t for x in r))
        if isinstance(a, VEnum) and isinstance(b, VEnum):
            return VBool.const((a.cls, a.member) == (b.cls, b.member))
        if isinstance(a, (VClass, VExt)) and isinstance(b, (VClass, VExt)):
            return VBool.const(type(a) is type(b) and self.clsname(a) == self.clsname(b))
        if isinstance(a, VRef) and isinstance(b, VRef):
            if a.loc == b.loc:
                return VBool.const(True)
            ha, hb = st.heap[a.loc], st.heap[b.loc]
            if isinstance(ha, (LList, SList)) and isinstance(hb, (LList, SList)):
                if isinstance(ha, LList) and isinstance(hb, LList):
                    return self.eq_plain(VTuple(ha.items), VTuple(hb.items), st, node)
                for h in (ha, hb):
                    if isinstance(h, SList) and not self.structural(h.ety):
                        raise Unsupported("comparison of lists of %r" % h.ety, node)
                return VBool("%s =~= %s" % (self.e.render(a, st), self.e.render(b, st)))
            if isinstance(ha, CDict) and isinstance(hb, CDict):
                d = [{k.c: v for k, v in h.items} if all(isinstance(k, VStr) and k.c is not None for k, _ in h.items) else None for h in (ha, hb)]
                if None not in d:
                    if set(d[0]) != set(d[1]):
                        return VBool.const(False)
                    return self.eq_plain(VTuple([d[0][k] for k in d[0]]), VTuple([d[1][k] for k in d[0]]), st, node)
            if isinstance(ha, (SDict, CDict)) and isinstance(hb, (SDict, CDict)):
                for h in (ha, hb):
                    if isinstance(h, SDict) and not (self.structural(h.kty) and self.structural(h.vty)):
                        raise Unsupported("comparison of dictionaries of %r" % h.vty, node)
                return VBool("%s =~= %s" % (self.e.render(a, st), self.e.render(b, st)))
            raise Unsupported("comparison of objects", node)
        if isinstance(a, VUnion) and isinstance(b, VUnion) and a.u == b.u and self.structural(a.u):
            return VBool("%s == %s" % (a.t, b.t))
        kinds = [self.kind(x, st) for x in (a, b)]
        if None not in kinds and kinds[0] != kinds[1]:
            return VBool.const(False)
        raise Unsupported("comparison of %s and %s" % (type(a).__name__, type(b).__name__), node)

    def kind(self, v, st):
        if isinstance(v, (VInt, VBool)):
            return "num"
        if isinstance(v, VBytes):
            return "bytes" if v.kind in ("bytes", "bytearray", "byteslike") else None
        if isinstance(v, VStr):
            return "str"
        if isinstance(v, VTuple):
            return "tuple"
        if isinstance(v, VEnum):
            return "enum"
        if isinstance(v, VRef):
            h = st.heap[v.loc]
            if isinstance(h, (LList, SList)):
                return "list"
            if isinstance(h, (SDict, CDict)):
                return "dict"
        if isinstance(v, (VClass, VExt)):
            return "class"
        return None

    def contains(self, c, x, st, node):
        if isinstance(c, VUnion):
            for s1, y in self.e.union_cases(c, st):
                if isinstance(y, VUnion):
                    raise Unsupported("membership in a symbolic tuple", node)
                yield from self.contains(y, x, s1, node)
            return
        if isinstance(x, VUnion) and not (isinstance(c, VTuple)):
            for s1, y in self.e.union_cases(x, st):
                yield from self.contains(c, y, s1, node)
            return
        if isinstance(c, VTuple) or (isinstance(c, VRef) and isinstance(st.heap[c.loc], LList)):
            items = c.items if isinstance(c, VTuple) else list(st.heap[c.loc].items)

            def rec(s, i):
                if i == len(items):
                    yield s, VBool.const(False)
                    return
                for s1, r in self.eq(x, items[i], s, node):
                    if isinstance(r, Exc):
                        yield s1, r
                        continue
                    for s2, d in self.e.fork(s1, r):
                        if d:
                            yield s2, VBool.const(True)
                        else:
                            yield from rec(s2, i + 1)
            # pure disjunction when possible
            try:
                rs = [self.eq_plain(x, y, st, node) for y in items]
                if all(not isinstance(y, VUnion) for y in items + [x]):
                    if any(r.c is True for r in rs):
                        yield st, VBool.const(True)
                        return
                    rs = [r for r in rs if r.c is None]
                    if not rs:
                        yield st, VBool.const(False)
                    elif len(rs) == 1:
                        yield st, rs[0]
                    else:
                        yield st, VBool("(" + " || ".join("(%s)" % r.t for r in rs) + ")")
                    return
            except Unsupported:
                pass
            yield from rec(st, 0)
            return
        if isinstance(c, VRef):
            h = st.heap[c.loc]
            if isinstance(h, Inst):
                f, k = self.e.w.find_method(h.cls, "__contains__")
                if f is None:
                    raise Unsupported("membership in " + h.cls, node)
                for s1, r in self.e.call_func(f, [c, x], {}, st, node):
                    if isinstance(r, Exc):
                        yield s1, r
                    else:
                        yield from self.truth(r, s1, node)
                return
            if isinstance(h, SDict):
                if self.e.conforms(x, h.kty, st):
                    yield st, VBool("%s.dom().contains(%s)" % (h.term, self.e.render(x, st, h.kty)))
                    return
                if isinstance(x, VBytes) and x.kind == "bytearray":
                    yield st, Exc(["TypeError"], getattr(node, "lineno", None), "unhashable")
                    return
                yield st, VBool.const(False)
                return
            if isinstance(h, CDict):
                yield from self.contains(VTuple([k for k, _ in h.items]), x, st, node)
                return
            if isinstance(h, SList):
                if self.e.conforms(x, h.ety, st):
                    yield st, VBool("%s.contains(%s)" % (h.term, self.e.render(x, st, h.ety)))
                    return
        if isinstance(c, VStr) and isinstance(x, VStr):
            if c.c is not None and x.c is not None:
                yield st, VBool.const(x.c in c.c)
                return
            if c.t is not None and x.t is not None:
                yield st, VBool("has_infix(%s, %s)" % (c.t, x.t))
                return
        if c is VNone or isinstance(c, (VInt, VBool)):
            yield st, Exc(["TypeError"], getattr(node, "lineno", None), "membership test")
            return
        raise Unsupported("membership test", node)

    # ------------------------------------------------------------ arithmetic
    def binop(self, op, a, b, st, node):
        for p, q, sw in ((a, b, False), (b, a, True)):
            if isinstance(p, VUnion) and not p.u.startswith("tupleof"):
                for s1, x in self.e.union_cases(p, st):
                    if sw:
                        yield from self.binop(op, q, x, s1, node)
                    else:
                        yield from self.binop(op, x, q, s1, node)
                return
        k = type(op).__name__
        if isinstance(a, (VInt, VBool)) and isinstance(b, (VInt, VBool)):
            if k in ("BitAnd", "BitOr", "BitXor") and isinstance(a, VBool) and isinstance(b, VBool):
                t = {"BitAnd": "(%s && %s)", "BitOr": "(%s || %s)", "BitXor": "(%s != %s)"}[k] % (a.t, b.t)
                if a.c is not None and b.c is not None:
                    yield st, VBool.const({"BitAnd": a.c & b.c, "BitOr": a.c | b.c, "BitXor": a.c ^ b.c}[k])
                else:
                    yield st, VBool(t)
                return
            yield from self.arith(k, self.as_int(a), self.as_int(b), st, node)
            return
        if k == "Div" and isinstance(a, VInt) and isinstance(b, VCtx) and b.kind == "float":
            if b.data == 2.0:
                yield st, VRat(a.t, 2)
                return
        if isinstance(a, VBytes) and isinstance(b, VBytes) and k == "Add":
            if a.c is not None and b.c is not None:
                yield st, VBytes(None, a.kind, c=bytes(a.c) + bytes(b.c))
            elif a.c is not None and len(a.c) == 0 and a.kind == b.kind:
                yield st, VBytes(b.t, a.kind)
            elif b.c is not None and len(b.c) == 0:
                yield st, VBytes(a.t, a.kind)
            else:
                yield st, VBytes("(%s + %s)" % (a.t, b.t), a.kind)
            return
        if isinstance(a, VBytes) and isinstance(b, VInt) and k == "Mult":
            if a.c is not None and b.c is not None and len(a.c) * b.c < 512:
                yield st, VBytes(None, a.kind, c=bytes(a.c) * b.c)
                return
        if isinstance(a, VStr) and isinstance(b, VStr) and k == "Add":
            if a.c is not None and b.c is not None:
                yield st, VStr(c=a.c + b.c)
            elif a.t is None or b.t is None:
                yield st, VStr(None)
            else:
                yield st, VStr("(%s + %s)" % (a.t, b.t), ascii=a.ascii and b.ascii)
            return
        if isinstance(a, VStr) and k == "Mod":
            yield st, VStr(None)
            return
        if isinstance(a, VTuple) and isinstance(b, VTuple) and k == "Add":
            yield st, VTuple(a.items + b.items)
            return
        la, lb = self.listrec(a, st), self.listrec(b, st)
        if k == "Add" and la is not None and lb is not None:
            s = st.copy()
            yield s, self.e.alloc(s, self.concat(la, lb, s, node))
            return
        if k == "Mult" and la is not None and isinstance(b, VInt):
            s = st.copy()
            if isinstance(la, LList) and len(la.items) == 1 and isinstance(la.items[0], (VBytes, VInt)):
                x = la.items[0]
                ety = self.e.type_of(x, s)
                n = b.t if b.c is None else str(max(b.c, 0))
                if b.c is None:
                    n = "(if %s < 0 { 0int } else { %s as int })" % (n, n)
                t = self.e.let(s, "rep", "Seq<%s>" % self.e.sort(ety),
                               "Seq::new(%s as nat, |i: int| %s)" % (n, self.e.render(x, s, ety)))
                self.e.elem_inv(s, t, ety)
                yield s, self.e.alloc(s, SList(t, ety))
                return
            if isinstance(la, LList) and b.c is not None and len(la.items) * b.c <= 64:
                yield s, self.e.alloc(s, LList(list(la.items) * b.c))
                return
        ka, kb = self.kind(a, st), self.kind(b, st)
        if ka and kb and k in ("Add", "Sub", "BitAnd", "BitOr", "FloorDiv", "RShift", "LShift") and \
                (ka != kb or k not in ("Add",)):
            yield st, Exc(["TypeError"], getattr(node, "lineno", None), "operand types")
            return
        raise Unsupported("operator %s on %s, %s" % (k, type(a).__name__, type(b).__name__), node)

    def listrec(self, v, st):
        if isinstance(v, VRef) and isinstance(st.heap[v.loc], (LList, SList)):
            return st.heap[v.loc]
        return None

    def concat(self, a, b, st, node):
        if isinstance(a, LList) and isinstance(b, LList):
            return LList(a.items + b.items)
        sa = isinstance(a, SList)
        ety = a.ety if sa else b.ety
        other = b if sa else a
        if isinstance(other, SList) and other.ety != ety:
            if "byteslike" in (ety.kind, other.ety.kind) and {ety.kind, other.ety.kind} <= {"bytes", "bytearray", "byteslike"}:
                ety = parse_ty("byteslike")
            elif {ety.kind, other.ety.kind} <= {"item", "bytes", "bytearray"}:
                ety = parse_ty("item")
            else:
                raise Unsupported("concatenation of lists of different types", node)
        if isinstance(other, LList) and not all(self.e.conforms(x, ety, st) for x in other.items):
            if ety.kind in ("bytes", "bytearray", "byteslike", "item") and all(
                    isinstance(x, VBytes) and x.kind != "byteseq" or self.e.conforms(x, parse_ty("item"), st)
                    for x in other.items):
                ety = parse_ty("item")
            else:
                raise Unsupported("concatenation of lists of different types", node)

        def term(x):
            if isinstance(x, SList):
                return x.term if x.ety == ety else self.e.convert_seq(x, ety)
            return self.e.seq_lit([self.e.stored(y, st, ety) for y in x.items], ety)
        return SList("(%s + %s)" % (term(a), term(b)), ety)

    def arith(self, k, a, b, st, node):
        if a.c is not None and b.c is not None:
            x, y = a.c, b.c
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y, "FloorDiv": lambda: x // y,
                     "Mod": lambda: x % y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "LShift": lambda: x << y, "RShift": lambda: x >> y, "Pow": lambda: x ** y}[k]()
            except ZeroDivisionError:
                yield st, Exc(["ZeroDivisionError"], getattr(node, "lineno", None), "division")
                return
            except KeyError:
                raise Unsupported("operator " + k, node)
            yield st, VInt.const(r)
            return
        if k == "Add":
            yield st, VInt(add(a.t, b.t))
        elif k == "Sub":
            yield st, VInt(sub(a.t, b.t))
        elif k == "Mult":
            if a.c == 0 or b.c == 0:
                yield st, VInt.const(0)
            elif a.c == 1:
                yield st, b
            elif b.c == 1:
                yield st, a
            else:
                yield st, VInt("(%s * %s)" % (a.t, b.t))
        elif k in ("FloorDiv", "Mod") and b.c is not None and b.c > 0:
            yield st, VInt("(%s %s %s)" % (a.t, "/" if k == "FloorDiv" else "%", b.t))
        elif k == "Div" and b.c is not None and b.c > 0 and (b.c & (b.c - 1)) == 0:
            yield st, VRat(a.t, b.c)
        elif k == "RShift" and b.c is not None and b.c >= 0:
            yield st, VInt("(%s / %d)" % (a.t, 2 ** b.c))
        elif k == "LShift" and b.c is not None and b.c >= 0:
            yield st, VInt("(%s * %d)" % (a.t, 2 ** b.c))
        elif k == "LShift" and a.c == 1:
            raise Unsupported("symbolic shift", node)
        elif k == "BitAnd":
            if a.c is not None:
                a, b = b, a
            if b.c is not None and b.c >= 0:
                yield st, VInt(self.and_mask(a.t, b.c))
                return
            yield st, VInt("band(%s, %s)" % (a.t, b.t))
        elif k in ("BitOr", "BitXor"):
            if a.c is not None:
                a, b = b, a
            if b.c is not None and b.c >= 0:
                m = self.and_mask(a.t, b.c)
                if b.c == 0:
                    yield st, a
                elif k == "BitOr":
                    yield st, VInt("(%s - %s + %d)" % (a.t, m, b.c))
                else:
                    yield st, VInt("(%s - 2 * %s + %d)" % (a.t, m, b.c))
                return
            t = "%s(%s, %s)" % ("bor" if k == "BitOr" else "bxor", a.t, b.t)
            s1 = st.copy()
            for x, y in ((a.t, b.t), (b.t, a.t)):
                m = re.fullmatch(r"\((.*) \* (\d+)\)", x)
                if m and int(m.group(2)) & (int(m.group(2)) - 1) == 0:
                    # disjoint bits: exact
                    s1.fact("(0 <= %s && %s < %s ==> %s == %s + %s)" % (y, y, m.group(2), t, x, y))
            yield s1, VInt(t)
        else:
            raise Unsupported("operator " + k, node)

    def and_mask(self, t, m):
        """x & m for a constant m >= 0: exact for every integer x."""
        parts = []
        bit = 0
        while m >> bit:
            if (m >> bit) & 1:
                n = 0
                while (m >> (bit + n)) & 1:
                    n += 1
                x = "(%s %% %d)" % (t if bit == 0 else "(%s / %d)" % (t, 2 ** bit), 2 ** n)
                parts.append(x if bit == 0 else "(%s * %d)" % (x, 2 ** bit))
                bit += n
            else:
                bit += 1
        if not parts:
            return "0"
        return parts[0] if len(parts) == 1 else "(" + " + ".join(parts) + ")"

    # ------------------------------------------------------------ indexing
    def seq_of(self, v, st):
        """(term, element type) of a sequence value, or None."""
        if isinstance(v, VBytes):
            return v.t, parse_ty("int")
        if isinstance(v, VUnion) and v.u.startswith("tupleof["):
            return v.t, parse_ty(v.u).args[0]
        if isinstance(v, VRef):
            h = st.heap[v.loc]
            if isinstance(h, SList):
                return h.term, h.ety
            if isinstance(h, LList) and h.items:
                ety = self.e.type_of(h.items[0], st)
                if all(self.e.conforms(x, ety, st) for x in h.items):
                    return self.e.seq_lit([self.e.stored(x, st, ety) for x in h.items], ety), ety
        return None

    def elem(self, term, ety, i, st):
        t = "%s[%s]" % (term if re.fullmatch(r"[\w.>\-()]+", term) else "(%s)" % term, i)
        if ety.kind == "int":
            return VInt(t)
        return self.e.wrap(t, ety, st)

    def norm_index(self, i, n, st, node, what="index"):
        """Normalise a Python index against length term n: yields (state, term|Exc)."""
        if i.c is not None:
            if i.c >= 0:
                for s1, ex in self.e.guard(st, "%d < %s" % (i.c, n), "IndexError", node, what):
                    yield s1, (ex if ex is not None else str(i.c))
            else:
                for s1, ex in self.e.guard(st, "%d <= %s" % (-i.c, n), "IndexError", node, what):
                    yield s1, (ex if ex is not None else sub(n, str(-i.c)))
            return
        ok = "(-(%s) <= %s && %s < %s)" % (n, i.t, i.t, n)
        for s1, ex in self.e.guard(st, ok, "IndexError", node, what):
            if ex is not None:
                yield s1, ex
            else:
                yield s1, "pyidx(%s, %s as int)" % (i.t, n)

    def get_item(self, o, i, st, node):
        if isinstance(o, VUnion) and not o.u.startswith("tupleof"):
            for s1, x in self.e.union_cases(o, st):
                yield from self.get_item(x, i, s1, node)
            return
        if isinstance(i, VUnion):
            for s1, x in self.e.union_cases(i, st):
                yield from self.get_item(o, x, s1, node)
            return
        if isinstance(i, VCtx) and i.kind == "slice":
            yield from self.get_slice(o, i.data, st, node)
            return
        if isinstance(i, VBool):
            i = self.as_int(i)
        if isinstance(o, (VInt, VBool)) or o is VNone:
            yield st, Exc(["TypeError"], getattr(node, "lineno", None), "not subscriptable")
            return
        items = None
        if isinstance(o, VTuple):
            items = o.items
        elif isinstance(o, VRef) and isinstance(st.heap[o.loc], LList):
            items = st.heap[o.loc].items
        if items is not None and not isinstance(i, VInt):
            yield st, Exc(["TypeError"], getattr(node, "lineno", None), "index type")
            return
        if items is not None and i.c is not None:
            if -len(items) <= i.c < len(items):
                yield st, items[i.c]
            else:
                yield from ((s, ex) for s, ex in self.e.guard(st, "false", "IndexError", node, "index"))
            return
        if isinstance(o, VBytes) and o.c is not None and isinstance(i, VInt) and i.c is not None:
            if -len(o.c) <= i.c < len(o.c):
                yield st, VInt.const(o.c[i.c])
                return
        if isinstance(o, VStr) and not isinstance(i, VInt):
            yield st, Exc(["TypeError"], getattr(node, "lineno", None), "index type")
            return
        sq = self.seq_of(o, st)
        if sq is not None:
            if not isinstance(i, VInt):
                yield st, Exc(["TypeError"], getattr(node, "lineno", None), "index type")
                return
            term, ety = sq
            for s1, ix in self.norm_index(i, "%s.len()" % term, st, node):
                if isinstance(ix, Exc):
                    yield s1, ix
                    continue
                s2 = s1.copy()
                v = self.elem(term, ety, ix, s2)
                if isinstance(v, VUnion) and v.u in self.e.spec.unions:
                    yield from self.e.union_cases(v, s2)
                else:
                    yield s2, v
            return
        if isinstance(o, VRef):
            h = st.heap[o.loc]
            if isinstance(h, SDict):
                if not self.e.conforms(i, h.kty, st):
                    if isinstance(i, VBytes) and i.kind == "bytearray" or isinstance(i, VRef):
                        yield st, Exc(["TypeError"], getattr(node, "lineno", None), "unhashable")
                    else:
                        yield st, Exc(["KeyError"], getattr(node, "lineno", None), "key")
                    return
                k = self.e.render(i, st, h.kty)
                for s1, ex in self.e.guard(st, "%s.dom().contains(%s)" % (h.term, k), "KeyError", node, "key"):
                    if ex is not None:
                        yield s1, ex
                    else:
                        s2 = s1.copy()
                        yield s2, self.e.wrap("%s[%s]" % (h.term, k), h.vty, s2)
                return
            if isinstance(h, CDict):
                def rec(s, j):
                    if j < 0:
                        for s1, ex in self.e.guard(s, "false", "KeyError", node, "key"):
                            if ex is not None:
                                yield s1, ex
                        return
                    for s1, r in self.eq(i, h.items[j][0], s, node):
                        if isinstance(r, Exc):
                            yield s1, r
                            continue
                        for s2, d in self.e.fork(s1, r):
                            if d:
                                yield s2, h.items[j][1]
                            else:
                                yield from rec(s2, j - 1)
                yield from rec(st, len(h.items) - 1)
                return
            if isinstance(h, Inst):
                if h.cls.startswith("ext:"):
                    yield from self.x.ext_getitem(o, h, i, st, node)
                    return
                f, c = self.e.w.find_method(h.cls, "__getitem__")
                if f is not None:
                    yield from self.e.call_func(f, [o, i], {}, st, node)
                    return
            if isinstance(h, LList) and not h.items:
                for s1, ex in self.e.guard(st, "false", "IndexError", node, "index"):
                    if ex is not None:
                        yield s1, ex
                return
        raise Unsupported("subscript of " + type(o).__name__, node)

    def get_slice(self, o, parts, st, node):
        lo, hi, step = parts
        if isinstance(o, (VInt, VBool)) or o is VNone:
            yield st, Exc(["TypeError"], getattr(node, "lineno", None), "not subscriptable")
            return
        for p in parts:
            if p is not None and not isinstance(p, VInt):
                raise Unsupported("slice bound", node)
        if isinstance(o, (VTuple,)) or (isinstance(o, VRef) and isinstance(st.heap[o.loc], LList)):
            items = o.items if isinstance(o, VTuple) else st.heap[o.loc].items
            if all(p is None or p.c is not None for p in parts):
                r = list(items)[slice(*[None if p is None else p.c for p in parts])]
                if isinstance(o, VTuple):
                    yield st, VTuple(r)
                else:
                    s = st.copy()
                    yield s, self.e.alloc(s, LList(r))
                return
        if isinstance(o, VBytes) and o.c is not None and all(p is None or p.c is not None for p in parts):
            yield st, VBytes(None, o.kind, c=bytes(o.c)[slice(*[None if p is None else p.c for p in parts])])
            return
        if isinstance(o, VStr):
            if o.c is not None and all(p is None or p.c is not None for p in parts):
                yield st, VStr(c=o.c[slice(*[None if p is None else p.c for p in parts])])
                return
            if o.t is None:
                yield st, VStr(None)
                return
            sq = (o.t, parse_ty("int"))
        else:
            sq = self.seq_of(o, st)
        if sq is None:
            raise Unsupported("slice of " + type(o).__name__, node)
        term, ety = sq
        n = "%s.len()" % term
        s = st.copy()
        if step is not None:
            if step.c is None or step.c < 1:
                raise Unsupported("slice step", node)
        a = "0" if lo is None else self.clamp(lo, n)
        b = "(%s as int)" % n if hi is None else self.clamp(hi, n)
        if step is not None and step.c > 1:
            t = "step_slice(%s, %s as int, %s as int, %d)" % (term, a, b, step.c)
        else:
            t = "pyslice(%s, %s as int, %s as int)" % (term, a, b)
        if re.search(r"\bslice_\d+", term):
            s.hint("broadcast use lemma_slice_twice;")
        t = self.e.let(s, "slice", "Seq<%s>" % self.e.sort(ety), t)
        if isinstance(o, VBytes):
            s.fact("is_bytes(%s)" % t)
            yield s, VBytes(t, o.kind)
        elif isinstance(o, VStr):
            yield s, VStr(t, ascii=o.ascii)
        elif isinstance(o, VUnion):
            self.e.elem_inv(s, t, ety)
            yield s, VUnion(o.u, t)
        else:
            self.e.elem_inv(s, t, ety)
            yield s, self.e.alloc(s, SList(t, ety))

    def clamp(self, i, n):
        if i.c is not None and i.c >= 0:
            return "clampu(%d, %s as int)" % (i.c, n)
        if i.c is not None:
            return "clampn(%d, %s as int)" % (i.c, n)
        return "clampi(%s, %s as int)" % (i.t, n)

    def set_item(self, o, i, v, st, node):
        if isinstance(o, VUnion):
            for s1, x in self.e.union_cases(o, st):
                yield from self.set_item(x, i, v, s1, node)
            return
        if isinstance(i, VUnion):
            for s1, x in self.e.union_cases(i, st):
                yield from self.set_item(o, x, v, s1, node)
            return
        if not isinstance(o, VRef):
            raise Unsupported("item store on " + type(o).__name__, node)
        h = st.heap[o.loc]
        if isinstance(i, VCtx):
            raise Unsupported("slice store", node)
        if isinstance(h, LList) and isinstance(i, VInt) and i.c is not None:
            if -len(h.items) <= i.c < len(h.items):
                s = st.copy()
                it = list(h.items)
                it[i.c] = v
                self.e.write(s, o.loc, LList(it), node)
                yield s, None
            else:
                for s1, ex in self.e.guard(st, "false", "IndexError", node, "index"):
                    if ex is not None:
                        yield s1, ex
            return
        if isinstance(h, (SList, LList)) and isinstance(i, VInt):
            sq = self.seq_of(o, st)
            if sq is None:
                raise Unsupported("item store", node)
            term, ety = sq
            if not self.e.conforms(v, ety, st):
                raise Unsupported("item of another type", node)
            for s1, ix in self.norm_index(i, "%s.len()" % term, st, node):
                if isinstance(ix, Exc):
                    yield s1, ix
                    continue
                s2 = s1.copy()
                self.e.write(s2, o.loc, SList("%s.update(%s, %s)" % (self.e.paren2(term), ix, self.e.stored(v, s2, ety)), ety), node)
                yield s2, None
            return
        if isinstance(h, CDict):
            ks = [k for k, _ in h.items]
            if self.is_const(i) and all(self.is_const(k) for k in ks):
                s = st.copy()
                it = [(k, x) for k, x in h.items]
                for j, k in enumerate(ks):
                    if self.eq_plain(k, i, st, node).c is True:
                        it[j] = (k, v)
                        break
                else:
                    it.append((i, v))
                self.e.write(s, o.loc, CDict(it), node)
                yield s, None
                return
            kty, vty = self.e.type_of(i, st), self.e.type_of(v, st)
            if h.items:
                kty, vty = self.e.type_of(h.items[0][0], st), self.e.type_of(h.items[0][1], st)
            ty = Ty("dict", kty, vty)
            st = st.copy()
            for _, x in h.items:
                self.e.stored(x, st, vty)
            h = SDict(self.e.render(o, st, ty), kty, vty)
        if isinstance(h, SDict):
            if isinstance(i, VBytes) and i.kind == "bytearray":
                yield st, Exc(["TypeError"], getattr(node, "lineno", None), "unhashable")
                return
            if not self.e.conforms(i, h.kty, st) or not self.e.conforms(v, h.vty, st):
                raise Unsupported("dict entry of another type (%s: %s)" % (
                    self.e.safe_type(i, st), self.e.safe_type(v, st)), node)
            s = st.copy()
            self.e.write(s, o.loc, SDict("%s.insert(%s, %s)" % (self.e.paren2(h.term), self.e.render(i, s, h.kty),
                                                                 self.e.stored(v, s, h.vty)), h.kty, h.vty), node)
            yield s, None
            return
        if isinstance(h, Inst):
            f, c = self.e.w.find_method(h.cls, "__setitem__")
            if f is not None:
                for s1, r in self.e.call_func(f, [o, i, v], {}, st, node):
                    yield s1, (r if isinstance(r, Exc) else None)
                return
        raise Unsupported("item store", node)

    def dict_term(self, v, st, ty):
        h = st.heap[v.loc]
        if isinstance(h, CDict):
            for _, x in h.items:
                self.e.stored(x, st, ty.args[1])
        return self.e.render(v, st, ty)

    def is_const(self, v):
        return getattr(v, "c", None) is not None

    def del_item(self, o, i, st, node):
        if isinstance(o, VUnion):
            for s1, x in self.e.union_cases(o, st):
                yield from self.del_item(x, i, s1, node)
            return
        if not isinstance(o, VRef):
            raise Unsupported("item deletion", node)
        h = st.heap[o.loc]
        if isinstance(h, SDict):
            if not self.e.conforms(i, h.kty, st):
                yield st, Exc(["KeyError", "TypeError"], getattr(node, "lineno", None), "key")
                return
            k = self.e.render(i, st, h.kty)
            for s1, ex in self.e.guard(st, "%s.dom().contains(%s)" % (h.term, k), "KeyError", node, "key"):
                if ex is not None:
                    yield s1, ex
                else:
                    s2 = s1.copy()
                    self.e.write(s2, o.loc, SDict("%s.remove(%s)" % (self.e.paren2(h.term), k), h.kty, h.vty), node)
                    yield s2, None
            return
        if isinstance(h, CDict) and not h.items:
            for s1, ex in self.e.guard(st, "false", "KeyError", node, "key"):
                if ex is not None:
                    yield s1, ex
            return
        if isinstance(h, Inst):
            f, c = self.e.w.find_method(h.cls, "__delitem__")
            if f is not None:
                for s1, r in self.e.call_func(f, [o, i], {}, st, node):
                    yield s1, (r if isinstance(r, Exc) else None)
                return
        raise Unsupported("item deletion", node)

    # ------------------------------------------------------------ iteration
    def reads(self, vi, loc, rec):
        vi.srcs = {loc: rec}
        return vi

    def over(self, vi, *others):
        """An iterator (zip, enumerate, reversed) over other iterables."""
        vi.once = True
        for o in others:
            vi.srcs = {**vi.srcs, **o.srcs}
        return vi

    def iterate(self, v, st, node):
        """Yields (state, VIter|Exc)."""
        if isinstance(v, VIter):
            if any(st.heap.get(l) is not rec for l, rec in v.srcs.items()):
                raise Unsupported("a sequence is modified before an iterator over it is used", node)
            yield st, v
        elif isinstance(v, VTuple):
            yield st, VIter(items=v.items)
        elif isinstance(v, VUnion):
            if v.u.startswith("tupleof["):
                ety = parse_ty(v.u).args[0]
                yield st, self.seq_iter(v.t, ety)
                return
            for s1, x in self.e.union_cases(v, st):
                yield from self.iterate(x, s1, node)
        elif isinstance(v, VBytes):
            if v.c is not None and len(v.c) <= 40:
                yield st, VIter(items=[VInt.const(x) for x in v.c])
            else:
                yield st, self.seq_iter(v.t, parse_ty("int"))
        elif isinstance(v, VRef):
            h = st.heap[v.loc]
            if isinstance(h, LList):
                yield st, self.reads(VIter(items=list(h.items)), v.loc, h)
            elif isinstance(h, SList):
                yield st, self.reads(self.seq_iter(h.term, h.ety), v.loc, h)
            elif isinstance(h, CDict):
                yield st, self.reads(VIter(items=[k for k, _ in h.items]), v.loc, h)
            elif isinstance(h, SDict):
                s = st.copy()
                ks = self.dict_keys(h, s)
                yield s, self.reads(self.seq_iter(ks, h.kty), v.loc, h)
            elif isinstance(h, Inst) and h.cls.startswith("ext:"):
                yield from self.x.iterate(v, h, st, node)
            else:
                f, c = self.e.w.find_method(h.cls, "__iter__")
                if f is None:
                    raise Unsupported("iteration over " + h.cls, node)
                raise Unsupported("user-defined iterator", node)
        elif isinstance(v, VCtx) and v.kind == "genexp":
            e, env = v.data
            for s1, r in self.comprehension(e, st, "list", env=env):
                if isinstance(r, Exc):
                    yield s1, r
                else:
                    yield from self.iterate(r, s1, node)
        elif isinstance(v, VStr) and v.c is not None:
            yield st, VIter(items=[VStr(c=x) for x in v.c])
        elif isinstance(v, VStr) and v.t is not None:
            yield st, VIter(length="(%s.len() as int)" % v.t, elem=lambda i, s: VStr("seq![%s[%s]]" % (v.t, i), ascii=v.ascii), ety=parse_ty("str"))
        elif v is VNone or isinstance(v, (VInt, VBool)):
            yield st, Exc(["TypeError"], getattr(node, "lineno", None), "not iterable")
        else:
            raise Unsupported("iteration over " + type(v).__name__, node)

    def seq_iter(self, term, ety):
        return VIter(length="(%s.len() as int)" % term, elem=lambda i, s: self.elem(term, ety, i, s), ety=ety, seq=term)

    def dict_keys(self, h, st):
        """A fresh enumeration of the keys of a symbolic dict."""
        ks = self.e.decl(st, "keys", "Seq<%s>" % self.e.sort(h.kty))
        st.fact("enumerates(%s, %s.dom())" % (ks, h.term))
        st.hint("lemma_enumerates(%s, %s.dom());" % (ks, h.term))
        if h.kty.kind == "bytes":
            st.fact("all_bytes(%s)" % ks)
        return ks

    # ------------------------------------------------------------ comprehensions
    def comprehension(self, e, st, what, env=None):
        if len(e.generators) != 1:
            yield from self.comp_loop(e, st, env)
            return
        g = e.generators[0]
        if g.is_async:
            raise Unsupported("async comprehension", e)
        saved = st.env
        s0 = st.with_env(env) if env is not None else st
        for s1, it in self.e.ev(g.iter, s0):
            if isinstance(it, Exc):
                yield s1.with_env(saved), it
                continue
            for s2, vi in self.iterate(it, s1, e):
                if isinstance(vi, Exc):
                    yield s2.with_env(saved), vi
                    continue
                if vi.items is not None:
                    for s3, r in self.comp_concrete(e, g, vi.items, s2):
                        yield s3.with_env(saved), r
                else:
                    if g.ifs:
                        yield from self.comp_loop(e, st, env)
                        return
                    def fn(s, x):
                        for s5, ex in self.e.assign(g.target, x, s):
                            if ex is not None:
                                yield s5, ex
                            else:
                                yield from self.e.ev(e.elt, s5)
                    for s3, r in self.map_pure(fn, vi, s2, e):
                        yield s3.with_env(saved), r

    def comp_loop(self, e, st, env):
        """[elt for x in a if c for y in b ...] as the loops it stands for."""
        loop = getattr(e, "_as_loop", None)
        if loop is None:
            acc = "_comp_%d_%d" % (e.lineno, e.col_offset)
            if isinstance(e, ast.DictComp):
                body = ast.parse("%s_k = 0\n%s_v = 0\n%s[%s_k] = %s_v" % ((acc,) * 5)).body
                body[0].value, body[1].value = e.key, e.value
            else:
                body = ast.parse("%s.append(0)" % acc).body
                body[0].value.args = [e.elt]
            for g in reversed(e.generators):
                if g.is_async:
                    raise Unsupported("async comprehension", e)
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
            for n in ast.walk(body[0]):
                ast.copy_location(n, e) if not hasattr(n, "lineno") else None
            ast.fix_missing_locations(body[0])
            loop = e._as_loop = (acc, body[0])
        acc, body = loop
        saved = st.env
        s = st.with_env(env) if env is not None else st.copy()
        r = self.e.alloc(s, CDict([]) if isinstance(e, ast.DictComp) else LList([]))
        s = s.with_env({**s.env, acc: r})
        for s1, k, p in self.e.exec_block([body], s):
            if k == "raise":
                yield s1.with_env(saved), p
            elif k == "next":
                yield s1.with_env(saved), s1.env[acc]
            else:
                raise Unsupported("control flow out of a comprehension", e)

    def comp_concrete(self, e, g, items, st):
        def rec(s, i, acc):
            if i == len(items):
                s2 = s.copy()
                yield s2, self.e.alloc(s2, LList(acc))
                return
            for s1, ex in self.e.assign(g.target, items[i], s):
                if ex is not None:
                    yield s1, ex
                    continue

                def filt(s, j):
                    if j == len(g.ifs):
                        for s4, v in self.e.ev(e.elt, s):
                            if isinstance(v, Exc):
                                yield s4, v
                            else:
                                yield from rec(s4, i + 1, acc + [v])
                        return
                    for s2, b in self.e.ev_cond(g.ifs[j], s):
                        if isinstance(b, Exc):
                            yield s2, b
                            continue
                        for s3, d in self.e.fork(s2, b):
                            if d:
                                yield from filt(s3, j + 1)
                            else:
                                yield from rec(s3, i + 1, acc)
                yield from filt(s1, 0)
        yield from rec(st, 0, [])

    @staticmethod
    def inliner(names):
        def sub(t):
            if not names:
                return t
            return re.sub(r"[A-Za-z_]\w*", lambda m: names.get(m.group(0), m.group(0)), t)
        return sub

    def binder_outcomes(self, fn, vi, st, node):
        """Evaluate fn on an arbitrary element: list of (guards, value|Exc, obligations, state)."""
        i = self.e.fresh_name("i")
        s = st.copy()
        s.fact("0 <= %s" % i)
        s.fact("%s < %s" % (i, vi.length))
        x = vi.elem(i, s)
        mark = len(s.trace)
        outs = []
        base_heap = dict(s.heap)
        self.e.binders.append(i)
        try:
            found = list(fn(s, x))
        finally:
            self.e.binders.pop()
        for s1, v in found:
            for k in base_heap:
                if s1.heap.get(k) is not base_heap[k]:
                    raise Unsupported("side effect under a comprehension", node)
            guards, obs, names = [], [], {}
            sub = self.inliner(names)
            trace = s1.trace[mark:]
            for n, t in enumerate(trace):
                if t[0] == "fact":
                    if t[1] is not None and not (n and trace[n - 1][0] == "decl" and t[1].startswith(trace[n - 1][1] + " == ")):
                        guards.append(sub(t[1]))
                elif t[0] == "ob":
                    obs.append((t[:3] + (sub(t[3]),) + t[4:], list(guards)))
                    guards.append(sub(t[3]))
                elif t[0] == "decl":
                    nx = trace[n + 1] if n + 1 < len(trace) else ("", "")
                    if not (nx[0] == "fact" and nx[1].startswith(t[1] + " == ")):
                        raise Unsupported("fresh value under a comprehension", node)
                    names[t[1]] = "(%s)" % sub(nx[1][len(t[1]) + 4:])      # the name of a term
            outs.append((guards, v, obs, s1))
            self.inlines[id(s1)] = sub
        # facts about the element itself that fn does not need to establish
        elem_facts = [t[1] for t in s.trace[len(st.trace):mark] if t[0] == "fact"]
        return i, outs, elem_facts

    def map_pure(self, fn, vi, st, node):
        i, outs, ef = self.binder_outcomes(fn, vi, st, node)
        from .engine import neg
        s0 = st.copy()
        rng = "0 <= %s < (%s)" % (i, vi.length)
        elemf = [f for f in ef if not f.startswith("0 <= ") and not f.startswith(i + " <")]
        for f in elemf:
            s0.fact("forall|%s: int| %s ==> %s" % (i, rng, f))
        seen = set()
        for guards, v, obs, _ in outs:
            for t, gs in obs:
                if t[1] in seen:
                    continue
                seen.add(t[1])
                self.e.side_ob(s0, [(i, "int")], [rng] + gs, t[2], t[3], t[4])
        oks = [(g, self.e.narrow(v, s1), s1) for g, v, _, s1 in outs if not isinstance(v, Exc)]
        excs = [(g, v) for g, v, _, _ in outs if isinstance(v, Exc)]

        def conj(g):
            return " && ".join("(%s)" % x for x in g) if g else "true"
        if excs:
            s1 = s0.copy()
            s1.fact("exists|%s: int| #[trigger] tg(%s) && %s && (%s)" % (
                i, i, rng, " || ".join("(%s)" % conj(g) for g, _ in excs)))
            classes = set()
            for _, v in excs:
                classes |= set(v.classes)
            yield s1, Exc(classes, getattr(node, "lineno", None), "element")
        if not oks:
            s1 = s0.copy()
            s1.fact("%s == 0" % vi.length)
            yield s1, self.e.alloc(s1, LList([]))
            return
        if excs:
            s0.fact("forall|%s: int| %s ==> (%s)" % (i, rng, " || ".join("(%s)" % conj(g) for g, _, _ in oks)))
        ety = None
        for g, v, s1 in oks:
            t = self.e.type_of(v, s1)
            ety = t if ety is None else self.e.join_types(ety, t)
            if ety is None:
                raise Unsupported("comprehension of mixed element types", node)
        if ety.kind == "list" and ety.args[0].kind in ("str", "json") and "json" in self.e.spec.unions:
            ety = parse_ty("json")
        if ety.kind not in self.e.spec.unions and ety.kind not in ("int", "bool", "bytes", "bytearray", "str", "tuple", "onekey"):
            if ety.kind != "opt":
                raise Unsupported("comprehension elements of type %r" % ety, node)
        terms = []
        for g, v, s1 in oks:
            if ety.kind == "entry" and isinstance(v, VUnion) and v.u == "tupleof[item]":
                t = self.inlines[id(s1)](v.t)
                self.e.side_ob(s0, [(i, "int")], [rng] + g, "a tuple of byte strings", "all_strings(%s)" % t, getattr(node, "lineno", None))
                terms.append((conj(g), "Entry::T(strings_of(%s))" % t))
            else:
                terms.append((conj(g), self.inlines[id(s1)](self.e.render(v, s1, ety))))
        for _, v, s1 in oks:
            st.freeze([l for l in self.e.reach_set(v, s1) if l in st.heap], "stored in a container")
        body = terms[-1][1]
        for g, t in reversed(terms[:-1]):
            body = "(if %s { %s } else { %s })" % (g, t, body)
        if vi.seq is not None and body == "%s[%s]" % (vi.seq, i):
            term = vi.seq
        else:
            term = self.e.let(s0, "mapped", "Seq<%s>" % self.e.sort(ety),
                              "Seq::new(%s as nat, |%s: int| %s)" % (vi.length, i, body))
        self.e.elem_inv(s0, term, ety) if ety.kind not in ("item",) else None
        if len(oks) == 1 and ety.kind == "bool":
            pass
        yield s0, self.e.alloc(s0, SList(term, ety))

    def quant(self, fn, vi, st, node, universal):
        """all()/any() over a symbolic sequence."""
        i, outs, ef = self.binder_outcomes(fn, vi, st, node)
        s0 = st.copy()
        rng = "0 <= %s < (%s)" % (i, vi.length)
        for guards, v, obs, _ in outs:
            for t, gs in obs:
                self.e.side_ob(s0, [(i, "int")], [rng] + gs, t[2], t[3], t[4])
        terms = []
        for g, v, _, s1 in outs:
            if isinstance(v, Exc):
                raise Unsupported("exception under all()/any()", node)
            bs = list(self.truth(v, s1, node))
            if len(bs) != 1:
                raise Unsupported("condition under all()/any()", node)
            g = [x for x in g if x not in ef]
            terms.append(" && ".join("(%s)" % x for x in g + [self.inlines[id(s1)](bs[0][1].t)]))
        body = " || ".join("(%s)" % t for t in terms)
        if universal:
            yield s0, VBool("(forall|%s: int| %s ==> (%s))" % (i, rng, body))
        else:
            yield s0, VBool("(exists|%s: int| %s && (%s))" % (i, rng, body))

    def dict_comprehension(self, e, st):
        if len(e.generators) != 1 or e.generators[0].ifs:
            yield from self.comp_loop(e, st, None)
            return
        g = e.generators[0]
        for s1, it in self.e.ev(g.iter, st):
            if isinstance(it, Exc):
                yield s1, it
                continue
            src = None
            if isinstance(it, VIter) and getattr(it, "items_of", None) is not None:
                src = it.items_of
                how = "items"
            elif isinstance(it, VIter) and getattr(it, "keys_of", None) is not None:
                src = it.keys_of
                how = "keys"
            elif isinstance(it, VRef) and isinstance(s1.heap[it.loc], SDict):
                src = it.loc
                how = "keys"
            if src is not None and isinstance(s1.heap[src], SDict):
                # {k: d[k] for k in d} / {k: v for k, v in d.items()}: a copy
                h = s1.heap[src]
                if how == "items" and isinstance(g.target, ast.Tuple) and \
                        ast.unparse(e.key) == ast.unparse(g.target.elts[0]) and \
                        ast.unparse(e.value) == ast.unparse(g.target.elts[1]):
                    s2 = s1.copy()
                    yield s2, self.e.alloc(s2, SDict(h.term, h.kty, h.vty))
                    continue
                if how == "keys" and isinstance(g.target, ast.Name) and ast.unparse(e.key) == g.target.id:
                    x = self.e.fresh_name("k")
                    s2 = s1.copy()
                    env = dict(s2.env)
                    env[g.target.id] = self.e.wrap(x, h.kty, s2)
                    s2.facts.add("%s.dom().contains(%s)" % (h.term, x))
                    s2 = s2.with_env(env)
                    mark = len(s2.trace)
                    rs = list(self.e.ev(e.value, s2))
                    if len(rs) == 1 and not isinstance(rs[0][1], Exc):
                        r = rs[0][1]
                        extra = [t for t in rs[0][0].trace[mark:] if t[0] != "fact"]
                        if not extra and self.e.render(r, rs[0][0], h.vty) == "%s[%s]" % (h.term, x):
                            s3 = s1.copy()
                            yield s3, self.e.alloc(s3, SDict(h.term, h.kty, h.vty))
                            continue
            if isinstance(it, VIter) and it.items is not None or isinstance(it, VRef) and \
                    isinstance(s1.heap[it.loc], (LList, CDict)):
                vis = list(self.iterate(it, s1, e))
                if len(vis) == 1 and vis[0][1].items is not None and not vis[0][1].items:
                    s2 = s1.copy()
                    yield s2, self.e.alloc(s2, CDict([]))
                    continue
            yield from self.comp_loop(e, st, None)
            return

    # ------------------------------------------------------------ external names
    def ext_attr(self, o, name, st, node):
        yield from self.x.ext_attr(o, name, st, node)

    def ext_obj_attr(self, o, h, name, st, node):
        yield from self.x.ext_obj_attr(o, h, name, st, node)

    def to_item(self, v, st):
        return self.x.to_item(v, st)

    def call_ext(self, f, args, kw, st, node):
        if f.name.startswith("builtins."):
            m = getattr(self, "b_" + f.name[9:].replace(".", "_"), None)
            if m is None:
                if isinstance(f.name, str) and self.e.w.exc_is(f.name[9:], "BaseException"):
                    yield st, VExcObj([f.name[9:]])
                    return
                raise Unsupported("builtin " + f.name[9:], node)
            b = f.name[9:].replace(".", "_")
            if kw and b not in self.BUILTIN_KW or len(args) > self.BUILTIN_ARGS.get(b, 99):
                raise Unsupported("arguments of " + f.name[9:], node)
            yield from m(args, kw, st, node)
        else:
            if self.e.cur is not None:
                self.e.cur.ext_used.add(f.name)
            yield from self.x.call(f, args, kw, st, node)

    # ------------------------------------------------------------ builtins
    def length(self, v, st, node):
        if isinstance(v, VTuple):
            yield st, VInt.const(len(v.items))
        elif isinstance(v, VBytes):
            yield st, (VInt.const(len(v.c)) if v.c is not None else VInt("(%s.len() as int)" % v.t))
        elif isinstance(v, VStr):
            if v.c is not None:
                yield st, VInt.const(len(v.c))
            elif v.t is not None:
                yield st, VInt("(%s.len() as int)" % v.t)
            else:
                raise Unsupported("length of unknown text", node)
        elif isinstance(v, VUnion):
            if v.u.startswith("tupleof["):
                yield st, VInt("(%s.len() as int)" % v.t)
                return
            for s1, x in self.e.union_cases(v, st):
                yield from self.length(x, s1, node)
        elif isinstance(v, VIter):
            yield st, (VInt.const(len(v.items)) if v.items is not None else VInt(v.length))
        elif isinstance(v, VRef):
            h = st.heap[v.loc]
            if isinstance(h, LList):
                yield st, VInt.const(len(h.items))
            elif isinstance(h, SList):
                yield st, VInt("(%s.len() as int)" % h.term)
            elif isinstance(h, CDict):
                yield st, VInt.const(len(h.items))
            elif isinstance(h, SDict):
                yield st, VInt("(%s.dom().len() as int)" % h.term)
            else:
                f, c = self.e.w.find_method(h.cls, "__len__")
                if f is None:
                    yield st, Exc(["TypeError"], getattr(node, "lineno", None), "len")
                    return
                yield from self.e.call_func(f, [v], {}, st, node)
        elif v is VNone or isinstance(v, (VInt, VBool)):
            yield st, Exc(["TypeError"], getattr(node, "lineno", None), "len")
        else:
            raise Unsupported("len of " + type(v).__name__, node)

    def b_len(self, args, kw, st, node):
        yield from self.length(args[0], st, node)

    def branching(self, node):
        """The range is the one of a for statement whose body is not straight-line arithmetic."""
        loop = self.e.range_of.get(id(node))
        return loop is not None and any(isinstance(x, (ast.Call, ast.If, ast.IfExp, ast.Try, ast.BoolOp, ast.While, ast.For))
                                        for b in loop.body for x in ast.walk(b))

    def b_range(self, args, kw, st, node):
        if any(isinstance(a, VUnion) for a in args):
            raise Unsupported("range of union", node)
        args = [self.as_int(a) for a in args]
        if not all(isinstance(a, VInt) for a in args):
            yield st, Exc(["TypeError"], getattr(node, "lineno", None), "range")
            return
        lo, hi, step = VInt.const(0), None, VInt.const(1)
        if len(args) == 1:
            hi = args[0]
        else:
            lo, hi = args[0], args[1]
            if len(args) == 3:
                step = args[2]
        if lo.c is not None and hi.c is not None and step.c is not None and \
                (step.c == 0 or len(range(lo.c, hi.c, step.c)) <= 8 or not self.branching(node)):
            if step.c == 0:
                yield st, Exc(["ValueError"], getattr(node, "lineno", None), "range step")
                return
            yield st, VIter(items=[VInt.const(i) for i in range(lo.c, hi.c, step.c)])
            return
        if step.c is None or step.c == 0:
            raise Unsupported("range step", node)
        if step.c > 0:
            if step.c == 1:
                n = "range_len(%s, %s)" % (lo.t, hi.t)
            else:
                n = "range_len_step(%s, %s, %d)" % (lo.t, hi.t, step.c)
        else:
            if step.c == -1:
                n = "range_len(%s, %s)" % (hi.t, lo.t)
            else:
                n = "range_len_step(%s, %s, %d)" % (hi.t, lo.t, -step.c)

        def elem(i, s, lo=lo, step=step):
            if step.c == 1:
                return VInt(add(lo.t, i))
            if step.c > 0:
                return VInt(add(lo.t, "(%s * %d)" % (i, step.c)))
            return VInt(sub(lo.t, i if step.c == -1 else "(%s * %d)" % (i, -step.c)))
        yield st, VIter(length=n, elem=elem, ety=parse_ty("int"))

    def b_enumerate(self, args, kw, st, node):
        start = args[1] if len(args) > 1 else kw.get("start", VInt.const(0))
        for s1, vi in self.iterate(args[0], st, node):
            if isinstance(vi, Exc):
                yield s1, vi
            elif vi.items is not None:
                yield s1, self.over(VIter(items=[
                    VTuple([VInt(add(start.t, str(i))) if start.c is None else VInt.const(start.c + i), x])
                    for i, x in enumerate(vi.items)]), vi)
            else:
                yield s1, self.over(VIter(length=vi.length, elem=lambda i, s, vi=vi: VTuple(
                    [VInt(add(start.t, i)), vi.elem(i, s)]), ety=None), vi)

    def b_zip(self, args, kw, st, node):
        def rec(s, i, acc):
            if i == len(args):
                yield s, acc
                return
            for s1, vi in self.iterate(args[i], s, node):
                if isinstance(vi, Exc):
                    yield s1, vi
                else:
                    yield from rec(s1, i + 1, acc + [vi])
        for s1, vis in rec(st, 0, []):
            if isinstance(vis, Exc):
                yield s1, vis
                continue
            if all(v.items is not None for v in vis):
                yield s1, self.over(VIter(items=[VTuple(list(t)) for t in zip(*[v.items for v in vis])]), *vis)
                continue
            n = None
            for v in vis:
                l = v.length if v.items is None else str(len(v.items))
                n = l if n is None else "min2(%s, %s)" % (n, l)
            if any(v.items is not None for v in vis):
                raise Unsupported("zip of concrete and symbolic sequences", node)
            yield s1, self.over(VIter(length=n, elem=lambda i, s, vis=vis: VTuple([v.elem(i, s) for v in vis]), ety=None), *vis)

    def b_reversed(self, args, kw, st, node):
        for s1, vi in self.iterate(args[0], st, node):
            if isinstance(vi, Exc):
                yield s1, vi
            elif vi.items is not None:
                yield s1, self.over(VIter(items=list(reversed(vi.items))), vi)
            else:
                yield s1, self.over(VIter(length=vi.length, elem=lambda i, s, vi=vi: vi.elem(
                    "(%s - 1 - %s)" % (vi.length, i), s), ety=vi.ety), vi)

    def b_map(self, args, kw, st, node):
        if len(args) != 2:
            raise Unsupported("map of several iterables", node)
        for s1, vi in self.iterate(args[1], st, node):
            if isinstance(vi, Exc):
                yield s1, vi
                continue
            if vi.items is not None:
                def rec(s, i, acc):
                    if i == len(vi.items):
                        yield s, self.over(VIter(items=acc), vi)
                        return
                    for s2, v in self.e.call(args[0], [vi.items[i]], {}, s, node):
                        if isinstance(v, Exc):
                            yield s2, v
                        else:
                            yield from rec(s2, i + 1, acc + [v])
                yield from rec(s1, 0, [])
            else:
                for s2, r in self.map_pure(lambda s, x: self.e.call(args[0], [x], {}, s, node), vi, s1, node):
                    if isinstance(r, Exc):
                        yield s2, r
                    else:
                        yield from self.iterate(r, s2, node)

    def b_list(self, args, kw, st, node):
        if not args:
            s = st.copy()
            yield s, self.e.alloc(s, LList([]))
            return
        for s1, vi in self.iterate(args[0], st, node):
            if isinstance(vi, Exc):
                yield s1, vi
                continue
            s2 = s1.copy()
            if vi.items is not None:
                yield s2, self.e.alloc(s2, LList(vi.items))
            elif vi.seq is not None:
                yield s2, self.e.alloc(s2, SList(vi.seq, vi.ety))
            else:
                yield from self.map_pure(lambda s, x: iter([(s, x)]), vi, s2, node)

    def b_tuple(self, args, kw, st, node):
        if not args:
            yield st, VTuple([])
            return
        if isinstance(args[0], (VTuple,)) or isinstance(args[0], VUnion) and args[0].u.startswith("tupleof"):
            yield st, args[0]
            return
        for s1, r in self.b_list(args, kw, st, node):
            if isinstance(r, Exc):
                yield s1, r
                continue
            h = s1.heap[r.loc]
            if isinstance(h, LList):
                yield s1, VTuple(h.items)
            else:
                yield s1, VUnion("tupleof[%r]" % h.ety, h.term)

    def b_bytes(self, args, kw, st, node, kind="bytes"):
        if len(args) > 1 or kw:
            # bytes(text, encoding)
            if not args or not isinstance(args[0], VStr):
                raise Unsupported("bytes() with options", node)
            for s1, r in self.str_method(args[0], "encode", args[1:], kw, st, node):
                yield s1, (VBytes(r.t, kind, c=r.c) if isinstance(r, VBytes) else r)
            return
        if not args:
            yield st, VBytes(None, kind, c=b"")
            return
        v = args[0]
        if isinstance(v, VUnion):
            for s1, x in self.e.union_cases(v, st):
                yield from self.b_bytes([x], kw, s1, node, kind)
            return
        if isinstance(v, VBytes):
            if v.kind == "byteseq":
                raise Unsupported("bytes() of a sequence of unknown kind", node)
            yield st, VBytes(v.t, kind, c=v.c)
            return
        if isinstance(v, VStr):
            yield st, Exc(["TypeError"], getattr(node, "lineno", None), "bytes of str")
            return
        if isinstance(v, VRef) and isinstance(st.heap[v.loc], (LList, SList)) or isinstance(v, (VTuple, VIter)) or \
                (isinstance(v, VCtx) and v.kind == "genexp"):
            for s1, r in self.b_list([v], {}, st, node):
                if isinstance(r, Exc):
                    yield s1, r
                    continue
                h = s1.heap[r.loc]
                if isinstance(h, LList) and all(isinstance(x, VInt) and x.c is not None for x in h.items):
                    try:
                        yield s1, VBytes(None, kind, c=bytes([x.c for x in h.items]))
                    except ValueError:
                        yield s1, Exc(["ValueError"], getattr(node, "lineno", None), "bytes()")
                    continue
                if isinstance(h, LList) and not all(isinstance(x, VInt) for x in h.items) or \
                        isinstance(h, SList) and h.ety.kind != "int":
                    yield s1, Exc(["TypeError"], getattr(node, "lineno", None), "bytes()")
                    continue
                t = self.e.render(r, s1, parse_ty("byteseq"))
                for s2, ex in self.e.guard(s1, "is_bytes(%s)" % t, "ValueError", node, "bytes() range"):
                    yield s2, (ex if ex is not None else VBytes(t, kind))
            return
        raise Unsupported("bytes() of " + type(v).__name__, node)

    def b_bytearray(self, args, kw, st, node):
        yield from self.b_bytes(args, kw, st, node, kind="bytearray")

    def b_isinstance(self, args, kw, st, node):
        v, cls = args
        classes = cls.items if isinstance(cls, VTuple) else [cls]
        yield from self.isinst(v, classes, st, node)

    def isinst(self, v, classes, st, node):
        if isinstance(v, VUnion) and not v.u.startswith("tupleof"):
            for s1, x in self.e.union_cases(v, st):
                yield from self.isinst(x, classes, s1, node)
            return
        if isinstance(v, VBytes) and v.kind == "byteslike":
            ns = {c.name.split(".")[-1] for c in classes if isinstance(c, (VClass, VExt))} & {"bytes", "bytearray"}
            if len(ns) == 2:
                yield st, VBool.const(True)
                return
            if len(ns) == 1:
                s = st.copy()
                yield s, VBool(self.e.decl(s, "is_" + list(ns)[0], "bool"))
                return
        for c in classes:
            n = c.name.split(".")[-1] if isinstance(c, (VClass, VExt)) else None
            if n is None:
                raise Unsupported("isinstance class", node)
            if n == "object":
                yield st, VBool.const(True)
                return
            r = self.isinst1(v, n, c, st, node)
            if r:
                yield st, VBool.const(True)
                return
        yield st, VBool.const(False)

    def isinst1(self, v, n, c, st, node):
        if isinstance(v, VBytes):
            if v.kind not in ("bytes", "bytearray"):
                if n in ("bytes", "bytearray", "list", "tuple") and v.kind != "byteslike":
                    raise Unsupported("isinstance of a byte sequence of unknown kind", node)
                return False
            return n == v.kind
        if isinstance(v, VBool):
            return n in ("bool", "int")
        if isinstance(v, VInt):
            return n == "int"
        if isinstance(v, VStr):
            return n == "str"
        if v is VNone:
            return n == "NoneType"
        if v is VEll:
            return n == "ellipsis"
        if isinstance(v, VTuple) or isinstance(v, VUnion):
            return n in ("tuple", "Sequence")
        if isinstance(v, VRef):
            h = st.heap[v.loc]
            if isinstance(h, (LList, SList)):
                return n in ("list", "Sequence")
            if isinstance(h, (CDict, SDict)):
                return n in ("dict", "Mapping", "MutableMapping")
            if h.cls.startswith("ext:"):
                return n in (h.cls[4:],)
            return self.e.w.is_subclass(h.cls, n)
        if isinstance(v, (VFunc, VEnum, VClass)):
            return isinstance(v, VEnum) and v.cls == n
        if isinstance(v, VCtx) and v.kind in self.e.user_objects:
            return False        # of no class named in the library
        raise Unsupported("isinstance of " + type(v).__name__, node)

    def b_type(self, args, kw, st, node):
        v = args[0]
        if len(args) != 1:
            raise Unsupported("type()", node)
        if isinstance(v, VUnion) and not v.u.startswith("tupleof"):
            for s1, x in self.e.union_cases(v, st):
                yield from self.b_type([x], kw, s1, node)
            return
        if isinstance(v, VRef) and isinstance(st.heap[v.loc], Inst):
            c = st.heap[v.loc].cls
            yield st, (VExt(c) if c.startswith("ext:") else VClass(c))
            return
        names = {VInt: "int", VBool: "bool", VStr: "str", VTuple: "tuple", VUnion: "tuple"}
        if type(v) in names:
            yield st, VExt("builtins." + names[type(v)])
        elif isinstance(v, VBytes) and v.kind in ("bytes", "bytearray"):
            yield st, VExt("builtins." + v.kind)
        elif v is VNone:
            yield st, VExt("builtins.NoneType")
        elif isinstance(v, VRef):
            yield st, VExt("builtins." + ("list" if isinstance(st.heap[v.loc], (LList, SList)) else "dict"))
        else:
            yield st, VOpaque("type")

    def b_hasattr(self, args, kw, st, node):
        v, n = args
        if n.c is None:
            raise Unsupported("hasattr of symbolic name", node)
        if isinstance(v, VUnion) and not v.u.startswith("tupleof"):
            for s1, x in self.e.union_cases(v, st):
                yield from self.b_hasattr([x, n], kw, s1, node)
            return
        if isinstance(v, VRef) and isinstance(st.heap[v.loc], Inst):
            h = st.heap[v.loc]
            if h.cls.startswith("ext:"):
                yield st, VBool.const(self.x.has_attr(h, n.c))
                return
            f, c = self.e.w.find_method(h.cls, n.c)
            yield st, VBool.const(f is not None or n.c in h.fields)
            return
        if isinstance(v, VCtx) and v.kind in self.e.user_objects:
            if n.c.startswith("__"):
                raise Unsupported("hasattr", node)
            yield st, VBool.const(n.c in self.e.user_objects[v.kind])
            return
        py = {VBytes: bytes, VInt: int, VStr: str, VBool: bool, VTuple: tuple}.get(type(v))
        if py is not None:
            if isinstance(v, VBytes) and v.kind == "bytearray":
                py = bytearray
            yield st, VBool.const(hasattr(py, n.c))
            return
        if v is VNone:
            yield st, VBool.const(hasattr(None, n.c))
            return
        if isinstance(v, VRef):
            yield st, VBool.const(hasattr(list if isinstance(st.heap[v.loc], (LList, SList)) else dict, n.c))
            return
        raise Unsupported("hasattr", node)

    def b_getattr(self, args, kw, st, node):
        o, n = args[0], args[1]
        if n.c is not None:
            for s1, v in self.e.get_attr(o, n.c, st, node):
                if isinstance(v, Exc) and "AttributeError" in v.classes and len(args) > 2:
                    yield s1, args[2]
                else:
                    yield s1, v
            return
        if isinstance(o, VExt):
            yield from self.x.getattr_sym(o, n, st, node)
            return
        raise Unsupported("getattr of symbolic name", node)

    def b_min(self, args, kw, st, node, op="min2"):
        if len(args) == 2 and not kw and all(isinstance(a, VInt) for a in args):
            a, b = args
            if a.c is not None and b.c is not None:
                yield st, VInt.const(min(a.c, b.c) if op == "min2" else max(a.c, b.c))
            else:
                yield st, VInt("%s(%s, %s)" % (op, a.t, b.t))
            return
        raise Unsupported("min/max", node)

    def b_max(self, args, kw, st, node):
        yield from self.b_min(args, kw, st, node, op="max2")

    def b_abs(self, args, kw, st, node):
        if isinstance(args[0], VInt):
            yield st, VInt("(if %s < 0 { -(%s) } else { %s })" % (args[0].t, args[0].t, args[0].t))
            return
        raise Unsupported("abs", node)

    def b_divmod(self, args, kw, st, node):
        for s1, q in self.binop(ast.FloorDiv(), args[0], args[1], st, node):
            if isinstance(q, Exc):
                yield s1, q
                continue
            for s2, r in self.binop(ast.Mod(), args[0], args[1], s1, node):
                yield s2, (r if isinstance(r, Exc) else VTuple([q, r]))

    def b_bool(self, args, kw, st, node):
        if not args:
            yield st, VBool.const(False)
            return
        yield from self.truth(args[0], st, node)

    def b_int(self, args, kw, st, node):
        if set(kw) == {"base"} and len(args) == 1:
            args = [args[0], kw["base"]]
        elif kw or not args:
            raise Unsupported("int() with options", node)
        v = args[0]
        if isinstance(v, VRat) and len(args) == 1:
            # int() truncates towards zero
            yield st, VInt("(if %s < 0 { -((-(%s)) / %d) } else { %s / %d })" % (v.num, v.num, v.den, v.num, v.den))
            self.e.assumptions.add("int(x / 2.0) is exact: list indices are below 2**53")
            return
        if isinstance(v, VInt) and len(args) == 1:
            yield st, v
            return
        if isinstance(v, VBool) and len(args) == 1:
            yield st, self.as_int(v)
            return
        if len(args) == 2 and isinstance(args[1], VInt) and args[1].c == 16 and isinstance(v, (VBytes, VStr)) and v.t:
            t = v.t
            for s1, ex in self.e.guard(st, "is_hex_number(%s)" % t, "ValueError", node, "int(.., 16)"):
                yield s1, (ex if ex is not None else VInt("hex_value(%s)" % t))
            return
        if isinstance(v, VRef) and isinstance(st.heap[v.loc], Inst) and st.heap[v.loc].cls == "ext:hash" or v is VNone:
            yield st, Exc(["TypeError"], getattr(node, "lineno", None), "int()")
            return
        raise Unsupported("int()", node)

    def b_str(self, args, kw, st, node):
        if not args and not kw:
            yield st, VStr(c="")
            return
        v = args[0] if args else None
        if len(args) > 1 or kw:
            # str(data, encoding)
            if not isinstance(v, VBytes):
                raise Unsupported("str() with options", node)
            yield from self.bytes_method(v, "decode", args[1:], kw, st, node)
            return
        if isinstance(v, VStr):
            yield st, v
            return
        yield from self.x.str_of(v, st, node)

    def b_repr(self, args, kw, st, node):
        yield st, VStr(None)

    def b_print(self, args, kw, st, node):
        yield st, VNone

    def b_hash(self, args, kw, st, node):
        v = args[0]
        if isinstance(v, VRef) and isinstance(st.heap[v.loc], Inst):
            f, c = self.e.w.find_method(st.heap[v.loc].cls, "__hash__")
            if f is not None:
                yield from self.e.call_func(f, [v], {}, st, node)
                return
        raise Unsupported("hash()", node)

    def b_callable(self, args, kw, st, node):
        yield st, VBool.const(isinstance(args[0], (VFunc, VBound, VClass, VExt, VBuiltinMethod)))

    def b_dict(self, args, kw, st, node):
        if not args and not kw:
            s = st.copy()
            yield s, self.e.alloc(s, CDict([]))
            return
        if len(args) == 1 and not kw:
            v = args[0]
            if isinstance(v, VRef) and isinstance(st.heap[v.loc], (SDict, CDict)):
                s = st.copy()
                yield s, self.e.alloc(s, st.heap[v.loc])
                return
            if isinstance(v, VIter) and getattr(v, "items_of", None) is not None:
                s = st.copy()
                yield s, self.e.alloc(s, st.heap[v.items_of])
                return
        if not args:
            s = st.copy()
            yield s, self.e.alloc(s, CDict([(VStr(c=k), v) for k, v in kw.items()]))
            return
        raise Unsupported("dict()", node)

    def gen_fn(self, arg, st, node):
        """(VIter, fn) view of a generator expression / list argument for all, any, sum."""
        if isinstance(arg, VCtx) and arg.kind == "genexp":
            e, env = arg.data
            if len(e.generators) != 1:
                raise Unsupported("nested generator", node)
            g = e.generators[0]
            saved = st.env
            for s1, it in self.e.ev(g.iter, st.with_env(env)):
                if isinstance(it, Exc):
                    yield s1.with_env(saved), it, None, None
                    continue
                for s2, vi in self.iterate(it, s1, node):
                    if isinstance(vi, Exc):
                        yield s2.with_env(saved), vi, None, None
                        continue

                    def fn(s, x, g=g, e=e):
                        for s5, ex in self.e.assign(g.target, x, s.with_env(env)):
                            if ex is not None:
                                yield s5, ex
                                continue

                            def filt(s6, j):
                                if j == len(g.ifs):
                                    yield from self.e.ev(e.elt, s6)
                                    return
                                for s7, b in self.e.ev_cond(g.ifs[j], s6):
                                    if isinstance(b, Exc):
                                        yield s7, b
                                        continue
                                    for s8, d in self.e.fork(s7, b):
                                        if d:
                                            yield from filt(s8, j + 1)
                                        else:
                                            yield s8, None
                            yield from filt(s5, 0)
                    yield s2.with_env(saved), vi, fn, bool(g.ifs)
        else:
            for s1, vi in self.iterate(arg, st, node):
                if isinstance(vi, Exc):
                    yield s1, vi, None, None
                else:
                    yield s1, vi, (lambda s, x: iter([(s, x)])), False

    def quant_builtin(self, args, st, node, universal):
        default = VBool.const(universal)
        for s1, vi, fn, filt in self.gen_fn(args[0], st, node):
            if isinstance(vi, Exc):
                yield s1, vi
                continue

            def fn2(s, x, fn=fn):
                for s2, v in fn(s, x):
                    yield s2, (default if v is None else v)
            if vi.items is None:
                saved = s1.env
                for s2, r in self.quant(fn2, vi, s1, node, universal):
                    yield s2.with_env(saved), r
                continue

            def rec(s, i):
                if i == len(vi.items):
                    yield s, default
                    return
                for s2, v in fn2(s, vi.items[i]):
                    if isinstance(v, Exc):
                        yield s2, v
                        continue
                    for s3, b in self.truth(v, s2, node):
                        if isinstance(b, Exc):
                            yield s3, b
                            continue
                        for s4, d in self.e.fork(s3, b):
                            if d == universal:
                                yield from rec(s4, i + 1)
                            else:
                                yield s4, VBool.const(d)
            saved = s1.env
            for s2, r in rec(s1, 0):
                yield s2.with_env(saved), r

    def b_all(self, args, kw, st, node):
        yield from self.quant_builtin(args, st, node, True)

    def b_any(self, args, kw, st, node):
        yield from self.quant_builtin(args, st, node, False)

    def b_sum(self, args, kw, st, node):
        if len(args) != 1:
            raise Unsupported("sum with start", node)
        for s1, vi, fn, filt in self.gen_fn(args[0], st, node):
            if isinstance(vi, Exc):
                yield s1, vi
                continue

            def fn2(s, x, fn=fn):
                for s2, v in fn(s, x):
                    if v is None:
                        yield s2, VInt.const(0)
                    elif isinstance(v, Exc):
                        yield s2, v
                    else:
                        yield s2, self.as_int(v)
            saved = s1.env
            if vi.items is None:
                for s2, r in self.map_pure(fn2, vi, s1, node):
                    if isinstance(r, Exc):
                        yield s2.with_env(saved), r
                        continue
                    h = s2.heap[r.loc]
                    if isinstance(h, LList):
                        yield s2.with_env(saved), VInt.const(0)
                    else:
                        yield s2.with_env(saved), VInt("sum_int(%s)" % h.term)
                continue

            def rec(s, i, acc):
                if i == len(vi.items):
                    yield s, acc
                    return
                for s2, v in fn2(s, vi.items[i]):
                    if isinstance(v, Exc):
                        yield s2, v
                    else:
                        for s3, r in self.binop(ast.Add(), acc, v, s2, node):
                            yield from rec(s3, i + 1, r)
            for s2, r in rec(s1, 0, VInt.const(0)):
                yield s2.with_env(saved), r

    def b_open(self, args, kw, st, node):
        yield from self.x.open_(args, kw, st, node)

    def b_iter(self, args, kw, st, node):
        v = args[0]
        if isinstance(v, VRef) and isinstance(st.heap[v.loc], (SDict, CDict)):
            s = st.copy()
            yield s, self.e.alloc(s, Inst("ext:dictiter", {"d": v}))
            return
        raise Unsupported("iter()", node)

    def b_filter(self, args, kw, st, node):
        for s1, vi in self.iterate(args[1], st, node):
            if isinstance(vi, Exc):
                yield s1, vi
                continue
            if vi.items is None:
                raise Unsupported("filter over a symbolic sequence", node)

            def rec(s, i, acc):
                if i == len(vi.items):
                    yield s, self.over(VIter(items=acc), vi)
                    return
                g = self.e.call(args[0], [vi.items[i]], {}, s, node) if args[0] is not VNone else [(s, vi.items[i])]
                for s2, v in g:
                    if isinstance(v, Exc):
                        yield s2, v
                        continue
                    for s3, b in self.truth(v, s2, node):
                        for s4, d in self.e.fork(s3, b):
                            yield from rec(s4, i + 1, acc + ([vi.items[i]] if d else []))
            yield from rec(s1, 0, [])

    def b_bytes_fromhex(self, args, kw, st, node, kind="bytes"):
        yield from self.x.fromhex(args[0], kind, st, node)

    def b_bytearray_fromhex(self, args, kw, st, node):
        yield from self.x.fromhex(args[0], "bytearray", st, node)

    def b_object___init__(self, args, kw, st, node):
        yield st, VNone

    # ------------------------------------------------------------ methods of builtin types
    # most arguments each method of a built-in type is modelled with (anything else is unsupported)
    METHOD_ARGS = {"append": 1, "extend": 1, "copy": 0, "clear": 0, "insert": 2, "index": 1, "pop": 2, "count": 1, "reverse": 0,
                   "keys": 0, "values": 0, "items": 0, "get": 2, "setdefault": 2, "update": 1, "hex": 0, "lower": 0, "join": 1, "startswith": 1}
    BUILTIN_ARGS = {"len": 1, "range": 3, "enumerate": 2, "reversed": 1, "list": 1, "tuple": 1, "isinstance": 2, "type": 1, "hasattr": 2,
                    "getattr": 3, "abs": 1, "divmod": 2, "bool": 1, "repr": 1, "hash": 1, "callable": 1, "dict": 1, "all": 1, "any": 1,
                    "sum": 2, "iter": 1, "filter": 2, "int": 2, "bytes_fromhex": 1, "bytearray_fromhex": 1, "zip": 99, "map": 99}
    BUILTIN_KW = ("enumerate", "min", "max", "int", "str", "bytes", "bytearray", "dict", "open", "print", "sum", "sorted")

    def call_method(self, o, name, args, kw, st, node):
        if name in self.METHOD_ARGS and (len(args) > self.METHOD_ARGS[name] or kw) and not (
                isinstance(o, VRef) and not isinstance(st.heap[o.loc], (LList, SList, SDict, CDict)) or isinstance(o, VCtx)):
            raise Unsupported("arguments of method " + name, node)
        if isinstance(o, VUnion) and not o.u.startswith("tupleof"):
            for s1, x in self.e.union_cases(o, st):
                yield from self.call_method(x, name, args, kw, s1, node)
            return
        if isinstance(o, VRef):
            h = st.heap[o.loc]
            if isinstance(h, (LList, SList)):
                yield from self.list_method(o, h, name, args, kw, st, node)
                return
            if isinstance(h, (SDict, CDict)):
                yield from self.dict_method(o, h, name, args, kw, st, node)
                return
        if isinstance(o, VBytes):
            yield from self.bytes_method(o, name, args, kw, st, node)
            return
        if isinstance(o, VStr):
            yield from self.str_method(o, name, args, kw, st, node)
            return
        if isinstance(o, VCtx) and o.kind in self.e.user_objects:
            if name == "encode_rlp" and not args and not kw:
                self.e.assumptions.add("encode_rlp() of a stored object returns bytes, the same each time, and changes nothing")
                s = st.copy()
                t = "oenc(%s)" % o.data
                s.fact("is_bytes(%s)" % t)
                yield s, VBytes(t, "bytes")
                return
            raise Unsupported("method %s of an object of the user" % name, node)
        if isinstance(o, (VInt, VBool)) and not hasattr(int, name) or o is VNone and not hasattr(None, name):
            yield st, Exc(("AttributeError",), getattr(node, "lineno", None), "no attribute " + name)
            return
        raise Unsupported("method %s of %s" % (name, type(o).__name__), node)

    def list_append(self, o, v, st, node):
        h = st.heap[o.loc]
        v = self.e.narrow(v, st)
        s = st.copy()
        if isinstance(h, LList):
            self.e.write(s, o.loc, LList(h.items + (v,)), node)
        else:
            likes = ("bytes", "bytearray", "byteslike")
            if not self.e.conforms(v, h.ety, st) and isinstance(v, VBytes) and v.kind in likes and h.ety.kind in likes:
                h = SList(h.term, parse_ty("byteslike"))
            if not self.e.conforms(v, h.ety, st) and (
                    h.ety.kind in ("json", "entry") or h.ety.kind == "item" and isinstance(v, VBytes) and v.kind in likes) \
                    and h.ety.kind in self.e.spec.unions:
                t = self.e.inject(v, s, h.ety.kind)
                s.freeze([l for l in self.e.reach_set(v, s) if l in s.heap], "stored in a container")
                self.e.write(s, o.loc, SList("%s.push(%s)" % (self.e.paren2(h.term), t), h.ety), node)
                return s
            if not self.e.conforms(v, h.ety, st):
                raise Unsupported("append of another type (%s to list of %r)" % (self.e.safe_type(v, st), h.ety), node)
            self.e.write(s, o.loc, SList("%s.push(%s)" % (self.e.paren2(h.term), self.e.stored(v, s, h.ety)), h.ety), node)
        return s

    def list_extend(self, o, other, st, node):
        for s1, r in self.b_list([other], {}, st, node):
            if isinstance(r, Exc):
                yield s1, r
                continue
            s2 = s1.copy()
            self.e.write(s2, o.loc, self.concat(s1.heap[o.loc], s1.heap[r.loc], s2, node), node)
            yield s2, VNone

    def list_method(self, o, h, name, args, kw, st, node):
        if name == "append":
            yield self.list_append(o, args[0], st, node), VNone
        elif name == "extend":
            yield from self.list_extend(o, args[0], st, node)
        elif name == "copy":
            s = st.copy()
            yield s, self.e.alloc(s, h)
        elif name == "clear":
            s = st.copy()
            self.e.write(s, o.loc, LList([]), node)
            yield s, VNone
        elif name == "insert" and isinstance(args[0], VInt) and args[0].c == 0:
            s = st.copy()
            self.e.write(s, o.loc, self.concat(LList([args[1]]), h, s, node), node)
            yield s, VNone
        elif name == "index" and isinstance(h, SList) and len(args) == 1:
            x = args[0]
            if not self.e.conforms(x, h.ety, st) and not (isinstance(x, VBytes) and h.ety.kind in ("bytes", "bytearray")):
                raise Unsupported("index of another type", node)
            t = x.t
            for s1, ex in self.e.guard(st, "%s.contains(%s)" % (h.term, t), "ValueError", node, "list.index"):
                if ex is not None:
                    yield s1, ex
                    continue
                s2 = s1.copy()
                i = self.e.decl(s2, "index", "int")
                s2.fact("first_index(%s, %s, %s)" % (h.term, t, i))
                yield s2, VInt(i)
        elif name == "pop" and isinstance(h, LList) and h.items and (not args or args[0].c is not None):
            i = args[0].c if args else -1
            items = list(h.items)
            if -len(items) <= i < len(items):
                v = items.pop(i)
                s = st.copy()
                self.e.write(s, o.loc, LList(items), node)
                yield s, v
            else:
                yield st, Exc(["IndexError"], getattr(node, "lineno", None), "pop")
        elif name == "pop" and not args:
            sq = self.seq_of(o, st)
            if sq is None:
                for s1, ex in self.e.guard(st, "false", "IndexError", node, "pop"):
                    if ex is not None:
                        yield s1, ex
                return
            term, ety = sq
            for s1, ex in self.e.guard(st, "%s.len() > 0" % term, "IndexError", node, "pop"):
                if ex is not None:
                    yield s1, ex
                    continue
                s2 = s1.copy()
                self.e.write(s2, o.loc, SList("%s.drop_last()" % self.e.paren2(term), ety), node)
                yield s2, self.elem(term, ety, "%s.len() - 1" % term, s2)
        elif name == "count" and len(args) == 1:
            raise Unsupported("list.count", node)
        else:
            if not args and not kw and not hasattr(list, name):
                yield st, Exc(["AttributeError"], getattr(node, "lineno", None), name)
                return
            raise Unsupported("list method " + name, node)

    def dict_method(self, o, h, name, args, kw, st, node):
        if name in ("keys", "values", "items") and not args:
            if isinstance(h, CDict):
                vi = VIter(items=[k if name == "keys" else v if name == "values" else VTuple([k, v])
                                  for k, v in h.items])
            else:
                s = st.copy()
                ks = self.dict_keys(h, s)
                st = s
                n = "(%s.len() as int)" % ks
                if name == "keys":
                    vi = self.seq_iter(ks, h.kty)
                elif name == "values":
                    vi = VIter(length=n, elem=lambda i, s: self.e.wrap("%s[%s[%s]]" % (h.term, ks, i), h.vty, s), ety=h.vty)
                else:
                    vi = VIter(length=n, elem=lambda i, s: VTuple([
                        self.elem(ks, h.kty, i, s), self.e.wrap("%s[%s[%s]]" % (h.term, ks, i), h.vty, s)]), ety=None)
                vi.length = n
                vi.keys = (ks, h.kty)
            vi.dict_loc = o.loc
            vi.view = True
            vi.srcs = {o.loc: h}
            if name == "items":
                vi.items_of = o.loc
            if name == "keys":
                vi.keys_of = o.loc
            yield st, vi
        elif name == "copy":
            s = st.copy()
            yield s, self.e.alloc(s, h)
        elif name == "clear":
            s = st.copy()
            if isinstance(h, SDict):
                self.e.write(s, o.loc, SDict("Map::<%s, %s>::empty()" % (self.e.sort(h.kty), self.e.sort(h.vty)), h.kty, h.vty), node)
            else:
                self.e.write(s, o.loc, CDict([]), node)
            yield s, VNone
        elif name == "get" and args:
            dflt = args[1] if len(args) > 1 else VNone
            for s1, b in self.contains(o, args[0], st, node):
                if isinstance(b, Exc):
                    yield s1, b
                    continue
                for s2, d in self.e.fork(s1, b):
                    if d:
                        yield from self.get_item(o, args[0], s2, node)
                    else:
                        yield s2, dflt
        elif name == "pop" and args:
            for s1, b in self.contains(o, args[0], st, node):
                if isinstance(b, Exc):
                    yield s1, b
                    continue
                for s2, d in self.e.fork(s1, b):
                    if d:
                        for s3, v in self.get_item(o, args[0], s2, node):
                            if isinstance(v, Exc):
                                yield s3, v
                                continue
                            for s4, ex in self.del_item(o, args[0], s3, node):
                                yield s4, (v if ex is None else ex)
                    elif len(args) > 1:
                        yield s2, args[1]
                    else:
                        yield s2, Exc(["KeyError"], getattr(node, "lineno", None), "pop")
        elif name == "update" and len(args) == 1 and isinstance(args[0], VRef) and \
                isinstance(st.heap[args[0].loc], (SDict, CDict)):
            h2 = st.heap[args[0].loc]
            s = st.copy()
            if isinstance(h, CDict) and not h.items:
                self.e.write(s, o.loc, h2, node)
                yield s, VNone
            elif isinstance(h, SDict):
                ty = Ty("dict", h.kty, h.vty)
                self.e.write(s, o.loc, SDict("%s.union_prefer_right(%s)" % (self.e.paren2(h.term), self.dict_term(args[0], s, ty)), h.kty, h.vty), node)
                yield s, VNone
            else:
                raise Unsupported("dict.update", node)
        elif name == "setdefault" and len(args) == 2:
            for s1, b in self.contains(o, args[0], st, node):
                for s2, d in self.e.fork(s1, b):
                    if d:
                        yield from self.get_item(o, args[0], s2, node)
                    else:
                        for s3, ex in self.set_item(o, args[0], args[1], s2, node):
                            yield s3, (args[1] if ex is None else ex)
        else:
            if not args and not kw and not hasattr(dict, name):
                yield st, Exc(["AttributeError"], getattr(node, "lineno", None), name)
                return
            raise Unsupported("dict method " + name, node)

    def utf8_only(self, args, kw, node, ascii=False):
        """The arguments of encode / decode: nothing, or UTF-8 (for ASCII text: any of its subsets) with its default error handling."""
        vs = list(args) + [v for k, v in kw.items() if k == "encoding"]
        names = ("utf-8", "utf8") + (("ascii", "us-ascii", "latin-1", "latin1", "iso-8859-1") if ascii else ())
        if len(vs) > 1 or set(kw) - {"encoding"} or any(
                not (isinstance(v, VStr) and isinstance(v.c, str) and v.c.lower().replace("_", "-") in names) for v in vs):
            raise Unsupported("encoding options", node)

    def bytes_method(self, o, name, args, kw, st, node):
        if name == "hex" and not args and not kw:
            if o.c is not None:
                yield st, VStr(c=bytes(o.c).hex())
            else:
                yield st, VStr("hexs(%s)" % o.t, ascii=True)
        elif name == "decode":
            self.utf8_only(args, kw, node, bytes(o.c).isascii() if o.c is not None else "is_ascii(%s)" % o.t in st.facts)
            if o.c is not None:
                try:
                    yield st, VStr(c=bytes(o.c).decode())
                except UnicodeDecodeError:
                    yield st, Exc(["UnicodeDecodeError"], getattr(node, "lineno", None), "decode")
                return
            if ("is_ascii(%s)" % o.t) in st.facts:
                yield st, VStr(o.t, ascii=True)
                return
            for s1, ex in self.e.guard(st, "utf8_ok(%s)" % o.t, "UnicodeDecodeError", node, "decode"):
                yield s1, (ex if ex is not None else VStr("utf8_dec(%s)" % o.t))
        elif name == "join" and o.c == b"":
            for s1, vi in self.iterate(args[0], st, node):
                if isinstance(vi, Exc):
                    yield s1, vi
                elif vi.items is not None:
                    acc = VBytes(None, "bytes", c=b"")
                    for x in vi.items:
                        r = list(self.binop(ast.Add(), acc, x, s1, node))
                        acc = r[0][1]
                        if isinstance(acc, Exc):
                            break
                    yield s1, acc
                elif vi.seq is not None and vi.ety.kind in ("bytes", "bytearray", "byteslike"):
                    yield s1, VBytes("concat_all(%s)" % vi.seq, "bytes")
                elif vi.ety is not None and vi.ety.kind in ("str", "astr", "int", "bool", "none", "list", "tuple", "tupleof", "dict"):
                    for s2, ex in self.e.guard(s1, "%s == 0" % vi.length, "TypeError", node, "join of items that are not bytes"):
                        yield s2, (ex if ex is not None else VBytes(None, "bytes", c=b""))
                else:
                    raise Unsupported("join", node)
        elif name == "startswith" and len(args) == 1 and isinstance(args[0], VBytes):
            yield st, VBool("starts_with_seq(%s, %s)" % (o.t, args[0].t))
        elif name == "copy" and o.kind == "bytearray":
            yield st, o
        elif hasattr(bytes if o.kind == "bytes" else bytearray, name):
            if not args and not kw and not hasattr(bytearray, name):
                yield st, Exc(["AttributeError"], getattr(node, "lineno", None), name)
                return
            raise Unsupported("bytes method " + name, node)
        else:
            yield st, Exc(["AttributeError"], getattr(node, "lineno", None), name)

    def str_method(self, o, name, args, kw, st, node):
        if o.c is not None and all(self.is_const(a) for a in args) and name in (
                "lower", "upper", "strip", "encode", "startswith", "endswith", "replace"):
            if name == "encode":
                self.utf8_only(args, kw, node, o.c.isascii())
                try:
                    yield st, VBytes(None, "bytes", c=o.c.encode())
                except UnicodeEncodeError:
                    yield st, Exc(["UnicodeEncodeError"], getattr(node, "lineno", None), "encode")
                return
            r = getattr(o.c, name)(*[a.c for a in args])
            yield st, (VBool.const(r) if isinstance(r, bool) else VStr(c=r))
            return
        if o.t is None:
            if name in ("encode",):
                raise Unsupported("bytes of unknown text", node)
            yield st, VStr(None)
            return
        if name == "encode":
            self.utf8_only(args, kw, node, o.ascii)
            if o.ascii:
                st.facts.add("is_ascii(%s)" % o.t)
                yield st, VBytes(o.t, "bytes")
            else:
                for s1, ex in self.e.guard(st, "text_ok(%s)" % o.t, "UnicodeEncodeError", node, "encode"):
                    if ex is not None:
                        yield s1, ex
                        continue
                    s = s1.copy()
                    t = "utf8_enc(%s)" % o.t
                    s.fact("is_bytes(%s)" % t)
                    yield s, VBytes(t, "bytes")
        elif name == "lower":
            yield st, VStr("str_lower(%s)" % o.t, ascii=o.ascii)
        elif name == "startswith" and len(args) == 1 and isinstance(args[0], VStr) and args[0].t:
            yield st, VBool("starts_with_seq(%s, %s)" % (o.t, args[0].t))
        else:
            if not args and not kw and not hasattr(str, name):
                yield st, Exc(["AttributeError"], getattr(node, "lineno", None), name)
                return
            raise Unsupported("str method " + name, node)
