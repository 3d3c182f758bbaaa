"""Symbolic executor: walks the AST of the real functions and produces, per path, the
facts and proof obligations that the Verus back end has to discharge."""
import ast
import itertools

from .spec import *
from .values import *
from .world import World

MAX_UNROLL = 40
MAX_STATES = 3000


def paren(t):
    return t if re.fullmatch(r"[\w:]+(\([^()]*\))?", t) else "(" + t + ")"


def neg(t):
    if t == "true":
        return "false"
    if t == "false":
        return "true"
    if t.startswith("!(") and matching(t, 1) == len(t) - 1:
        return t[2:-1]
    return "!(" + t + ")"


def matching(s, i):
    d = 0
    for k in range(i, len(s)):
        if s[k] == "(":
            d += 1
        elif s[k] == ")":
            d -= 1
            if d == 0:
                return k
    return -1


class State:
    __slots__ = ("env", "heap", "trace", "facts", "handlers", "depth", "frozen")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.trace = []
        self.facts = set()
        self.handlers = ()
        self.depth = 0
        self.frozen = {}      # loc -> why its content may be shared in a way the heap does not show

    def copy(self):
        s = State()
        s.env = self.env
        s.heap = dict(self.heap)
        s.trace = list(self.trace)
        s.facts = set(self.facts)
        s.handlers = self.handlers
        s.depth = self.depth
        s.frozen = self.frozen
        return s

    def freeze(self, locs, why):
        new = {l: why for l in locs if l not in self.frozen}
        if new:
            self.frozen = {**self.frozen, **new}

    def with_env(self, env):
        s = self.copy()
        s.env = env
        return s

    def fact(self, f):
        if f == "true" or f in self.facts:
            return
        self.facts.add(f)
        self.trace.append(("fact", f))

    def hint(self, h):
        self.trace.append(("hint", h))


# objects of the user of the library, by the methods they are known to have
USER_OBJECTS = {"encodable": ("encode_rlp", "decode_rlp"), "encoder": ("encode_rlp",), "decoder": ("decode_rlp",)}


class FnVC:
    def __init__(self, name, contract):
        self.name = name
        self.contract = contract
        self.paths = []        # list of (trace, kind)
        self.ob_labels = {}
        self.unsupported = None
        self.lines = (0, 0)
        self.callees = set()
        self.inlined = set()
        self.ext_used = set()
        self.loops = []


class Engine:
    def __init__(self, world, spec, houdini=None, loop_cache=None):
        self.w = world
        self.spec = spec
        self.n = 0
        self.obn = 0
        self.cur = None
        self.cur_contract = None
        self.entry_heap = None
        self.entry_env = None
        self.houdini = houdini
        self.loop_cache = loop_cache or {}
        self.loop_used = {}
        self.collecting = None
        self.mutated_loc = None
        self.assumptions = set()
        self.in_binder = 0
        self.loop_mode = "cache"
        self.loop_stale = False
        self.loop_ord = {}
        self.prover = None
        self.inline_stack = ()
        self.range_of = {}
        self.noread = {}
        self.user_objects = USER_OBJECTS
        from . import builtins_model
        self.bm = builtins_model.Builtins(self)
        self.binders = []      # bound variables of the comprehensions being read

    # ------------------------------------------------------------ basics
    def fresh_name(self, hint):
        self.n += 1
        hint = re.sub(r"\W", "_", hint)[:24]
        return "%s_%d" % (hint, self.n)

    def decl(self, st, hint, sort):
        nm = self.fresh_name(hint)
        st.trace.append(("decl", nm, sort))
        return nm

    def let(self, st, hint, sort, expr):
        """Name a term: a fresh variable equal to expr."""
        nm = self.decl(st, hint, sort)
        st.fact("%s == %s" % (nm, expr))
        return nm

    def ob(self, st, label, expr, node=None, line=None):
        if expr == "true" or expr in st.facts:
            self.trivial = getattr(self, "trivial", 0) + 1
            return
        self.obn += 1
        line = line if line is not None else getattr(node, "lineno", None)
        st.trace.append(("ob", self.obn, label, expr, line))
        st.facts.add(expr)

    def side_ob(self, st, decls, facts, label, expr, line):
        """An obligation about arbitrary elements: proved on a path of its own."""
        s = st.copy()
        for n, so in [(b, "int") for b in self.binders] + decls:
            s.trace.append(("decl", n, so))
        for f in facts:
            s.fact(f)
        if expr in s.facts:
            self.trivial = getattr(self, "trivial", 0) + 1
            return
        self.obn += 1
        s.trace.append(("ob", self.obn, label, expr, line))
        if self.cur is not None:
            self.cur.paths.append((s.trace, "side"))

    def alloc(self, st, rec):
        self.n += 1
        loc = self.n
        st.heap[loc] = rec
        return VRef(loc)

    # ------------------------------------------------------------ mutation, sharing
    def write(self, st, loc, rec, node=None):
        """Replace the content of a list, dict or object (every in-place change goes through here)."""
        why = st.frozen.get(loc)
        if isinstance(why, tuple) and why[0] == "may-alias":
            # the object also may sit inside the fields `why[2]` of the object why[1]
            st.heap[loc] = rec
            self.poison(st, why[1], why[2], loc)
            return
        if why is not None and st.heap.get(loc) is not rec:
            raise Unsupported("in-place change of a value that is shared (%s)" % why, node)
        if isinstance(st.heap.get(loc), Dead):
            raise Unsupported("change of a replaced object", node)
        st.heap[loc] = rec

    def register_alias(self, st, owner, cs):
        """Lists of an object that may also sit inside its other fields."""
        for a, fields in cs.may_alias.items():
            v = st.heap[owner].fields.get(a)
            if isinstance(v, VRef) and v.loc not in st.frozen:
                st.frozen = {**st.frozen, v.loc: ("may-alias", owner, fields)}

    def poison(self, st, owner, fields, src):
        """A list that may be an element of the containers in `fields` of an object changed: their
        content, and every copy of an element, is unknown from here on."""
        h = st.heap.get(owner)
        cs = self.class_spec(h.cls)
        for f in fields:
            cur = h.fields.get(f)
            if cur is None or cur is VNone:
                continue
            if isinstance(cur, VRef) and not isinstance(st.heap[cur.loc], SList) and src not in self.reach_set(cur, st):
                continue
            outs = list(self.fresh(st, cs.fields[f].args[-1] if cs.fields[f].kind == "alt" else cs.fields[f], f))
            if len(outs) != 1:
                raise Unsupported("changed list that may be shared")
            h = h.set(f, outs[0][1])
        st.heap[owner] = h
        for l, rec in list(st.heap.items()):
            if l == src or isinstance(rec, (Inst, Dead)):
                continue
            if st.frozen.get(l) == "copy of an element" or isinstance(rec, SList) and rec.ety.kind in ("list", "item") \
                    and not any(isinstance(h.fields.get(f), VRef) and h.fields[f].loc == l for f in fields):
                st.heap[l] = Dead("a list it may contain changed")

    def reach_set(self, v, st):
        acc = {}
        self.reach(v, st, acc)
        return set(acc)

    def stored(self, v, st, ty):
        """Term of a value put into a symbolic container; lists and objects in it are shared from now on."""
        t = self.render(v, st, ty)
        st.freeze(self.reach_set(v, st), "stored in a container")
        return t

    # ------------------------------------------------------------ sorts and rendering
    def sort(self, ty):
        k = ty.kind
        if k == "int" or k in USER_OBJECTS:
            return "int"
        if k == "bool":
            return "bool"
        if k in ("bytes", "bytearray", "byteslike", "byteseq", "str", "astr", "bytes0", "hashfn"):
            return "Seq<int>"
        if k == "opt":
            return "Option<%s>" % self.sort(ty.args[0])
        if k == "list" or k == "tupleof":
            return "Seq<%s>" % self.sort(ty.args[0])
        if k == "dict":
            return "Map<%s, %s>" % (self.sort(ty.args[0]), self.sort(ty.args[1]))
        if k in self.spec.unions:
            return self.spec.unions[k].sort
        if k in self.spec.classes and self.spec.classes[k].sort:
            return self.spec.classes[k].sort
        if k == "tuple":
            return "(%s)" % ", ".join(self.sort(a) for a in ty.args)
        if k == "onekey":           # a dictionary with exactly one key; key and value are text
            return "(Seq<int>, Seq<int>)"
        raise Unsupported("no sort for type %r" % (ty,))

    def render(self, v, st, ty=None):
        """Verus term of a value in the heap of st."""
        if ty is not None and ty.kind == "opt":
            inner = ty.args[0]
            if v is VNone:
                return "None::<%s>" % self.sort(inner)
            if isinstance(v, VUnion):
                return v.t
            return "Some(%s)" % self.render(v, st, inner)
        if ty is not None and ty.kind in self.spec.unions and (not isinstance(v, VUnion) or v.u.startswith("tupleof[")):
            return self.inject(v, st, ty.kind)
        if isinstance(v, VUnion) and ty is not None and ty.kind == "tupleof" and v.u != repr(ty):
            f = self.elem_conv(v, ty)
            if f is not None:
                return "Seq::new(%s.len(), |i: int| %s)" % (self.paren2(v.t), f("%s[i]" % self.paren2(v.t)))
        if isinstance(v, (VInt, VBool, VBytes, VUnion)):
            return v.t
        if isinstance(v, VStr):
            if v.t is None:
                raise Unsupported("string of unknown text in a specification")
            return v.t
        if isinstance(v, VCtx) and v.kind == "hashfn":
            return v.data.t
        if isinstance(v, VCtx) and v.kind in USER_OBJECTS:
            return v.data
        if isinstance(v, VTuple):
            tys = ty.args if ty is not None and ty.kind == "tuple" else [None] * len(v.items)
            if ty is not None and ty.kind == "tupleof":
                return self.seq_lit([self.render(x, st, ty.args[0]) for x in v.items], ty.args[0])
            return "(" + ", ".join(self.render(x, st, t) for x, t in zip(v.items, tys)) + ")"
        if isinstance(v, VRef):
            h = st.heap[v.loc]
            if isinstance(h, Inst):
                cs = self.spec.classes.get(h.cls)
                if cs is None or cs.view is None:
                    for k in self.w.mro(h.cls):
                        cs = self.spec.classes.get(k)
                        if cs is not None and cs.view is not None:
                            break
                    else:
                        raise Unsupported("no view for class " + h.cls)
                return self.fill_fields(cs.view, h, cs, st)
            if isinstance(h, Dead):
                raise Unsupported("use of an object whose content is unknown (%s)" % h.why)
            if isinstance(h, SList):
                if ty is not None and ty.kind == "list" and ty.args[0] != h.ety \
                        and self.sort(ty.args[0]) != self.sort(h.ety):
                    return self.convert_seq(h, ty.args[0])
                return h.term
            if isinstance(h, LList):
                ety = None
                if ty is not None and ty.kind in ("list", "tupleof"):
                    ety = ty.args[0]
                elif ty is not None and ty.kind == "byteseq":
                    ety = parse_ty("int")
                elif h.items:
                    ety = self.type_of(h.items[0], st)
                else:
                    return "Seq::empty()"
                return self.seq_lit([self.render(x, st, ety) for x in h.items], ety)
            if isinstance(h, SDict):
                return h.term
            if isinstance(h, CDict):
                if ty is not None and ty.kind == "onekey" or ty is None and len(h.items) == 1 \
                        and all(isinstance(x, VStr) for x in h.items[0]):
                    return "(%s, %s)" % (self.render(h.items[0][0], st), self.render(h.items[0][1], st))
                if ty is not None and ty.kind == "dict":
                    t = "Map::<%s, %s>::empty()" % (self.sort(ty.args[0]), self.sort(ty.args[1]))
                    for a, b in h.items:
                        t += ".insert(%s, %s)" % (self.render(a, st, ty.args[0]), self.render(b, st, ty.args[1]))
                    return t
                if not h.items:
                    return "Map::empty()"
        if v is VNone:
            raise Unsupported("None where a term is needed")
        raise Unsupported("cannot render " + type(v).__name__)

    def elem_conv(self, v, ty):
        """How an element of a tuple of one type is written as an element of a tuple of a union type."""
        if not v.u.startswith("tupleof") or ty.args[0].kind not in self.spec.unions:
            return None
        a = parse_ty(v.u).args[0]
        for g, cty, p, inj in self.spec.unions[ty.args[0].kind].cases:
            if "{t}" not in inj:
                continue
            if cty == a and a.kind == "bytes":
                return lambda x: inj.format(t=x)
            if cty.kind == "tupleof" and a.kind == "tuple" and all(y == cty.args[0] for y in a.args):
                return lambda x: inj.format(t="seq![%s]" % ", ".join("%s.%d" % (x, i) for i in range(len(a.args))))
        return None

    def convert_seq(self, h, ety):
        if ety.kind == "item" and h.ety.kind in ("bytes", "bytearray", "byteslike"):
            return "items_of(%s)" % h.term
        if ety.kind == "byteslike" and h.ety.kind in ("bytes", "bytearray"):
            return h.term
        raise Unsupported("cannot convert list of %r to %r" % (h.ety, ety))

    def seq_lit(self, terms, ety):
        if not terms:
            return "Seq::<%s>::empty()" % self.sort(ety)
        return "seq![" + ", ".join("%sint" % t if re.fullmatch(r"\d+", t) else t for t in terms) + "]"

    def fill_fields(self, tpl, h, cs, st):
        def f(m):
            k = m.group(1)
            if k not in h.fields:
                raise Unsupported("field %s of %s not set" % (k, h.cls))
            return self.render(h.fields[k], st, cs.fields.get(k))
        return re.sub(r"\{(\w+)\}", f, tpl)

    def join_types(self, a, b):
        """A type whose terms can stand for values of either type (None: there is none)."""
        if a == b:
            return a
        ks = {repr(a), repr(b)}
        if ks <= {"bytes", "item", "bytearray"}:
            return parse_ty("item")
        if "entry" in self.spec.unions and ks <= {"entry", "bytes", "tupleof[bytes]", "tupleof[item]", "item"} and len(ks) > 1:
            return parse_ty("entry")
        if "json" in self.spec.unions and ks <= {"json", "str", "astr", "none", "int", "list[str]", "list[json]", "list[unknown]"}:
            return parse_ty("json")
        return None

    def inject(self, v, st, u):
        us = self.spec.unions[u]
        if u == "json" and isinstance(v, VRef):
            t = self.bm.x.to_json(v, st, None)
            if t is not None and "?" not in t:
                return t
        if u == "entry" and isinstance(v, VUnion) and v.u == "tupleof[item]":
            self.ob(st, "a tuple of byte strings", "all_strings(%s)" % v.t)
            return "Entry::T(strings_of(%s))" % v.t
        if u == "item" and isinstance(v, VBytes) and v.kind in ("bytearray", "byteslike"):
            return "Item::S(%s)" % v.t
        for g, ty, p, inj in us.cases:
            if self.conforms(v, ty, st):
                if "{t}" in inj:
                    return inj.format(t=self.render(v, st, ty))
                return inj
        if u == "item":
            t = self.bm.to_item(v, st)
            if t is not None:
                return t
        raise Unsupported("value does not fit union " + u)

    def type_of(self, v, st):
        if isinstance(v, VBool):
            return parse_ty("bool")
        if isinstance(v, VInt):
            return parse_ty("int")
        if isinstance(v, VBytes):
            return parse_ty(v.kind)
        if isinstance(v, VStr):
            return parse_ty("str")
        if isinstance(v, VUnion):
            if v.u.startswith("opt:"):
                return Ty("opt", parse_ty(v.u[4:]))
            return parse_ty(v.u)
        if isinstance(v, VTuple):
            return Ty("tuple", *[self.type_of(x, st) for x in v.items])
        if v is VNone:
            return parse_ty("none")
        if isinstance(v, VCtx) and v.kind in USER_OBJECTS:
            return parse_ty(v.kind)
        if isinstance(v, VRef):
            h = st.heap[v.loc]
            if isinstance(h, Inst):
                return parse_ty(h.cls)
            if isinstance(h, SList):
                return Ty("list", h.ety)
            if isinstance(h, LList):
                if h.items:
                    return Ty("list", self.type_of(h.items[0], st))
                return Ty("list", parse_ty("unknown"))
            if isinstance(h, SDict):
                return Ty("dict", h.kty, h.vty)
            if isinstance(h, CDict):
                if self.conforms(v, parse_ty("onekey"), st):
                    return parse_ty("onekey")
                return parse_ty("cdict")
        raise Unsupported("no type for " + type(v).__name__)

    # ------------------------------------------------------------ conformity
    def conforms(self, v, ty, st):
        k = ty.kind
        if k == "any":
            return True
        if k == "new":
            return isinstance(v, VRef) and isinstance(st.heap[v.loc], Inst) and st.heap[v.loc].cls == self.real_class(ty.args[0].kind)
        if k == "alt":
            return any(self.conforms(v, a, st) for a in ty.args)
        if k == "int":
            return isinstance(v, VInt)
        if k == "bool":
            return isinstance(v, VBool)
        if k == "none":
            return v is VNone
        if k == "bytes":
            return isinstance(v, VBytes) and v.kind == "bytes"
        if k == "bytes0":
            return isinstance(v, VBytes)
        if k == "bytearray":
            return isinstance(v, VBytes) and v.kind == "bytearray"
        if k == "byteslike":
            return isinstance(v, VBytes) and v.kind in ("bytes", "bytearray", "byteslike")
        if k == "byteseq":
            if isinstance(v, VBytes):
                return True
            if isinstance(v, VRef):
                h = st.heap[v.loc]
                return (isinstance(h, SList) and h.ety.kind == "int") or \
                    (isinstance(h, LList) and all(isinstance(x, VInt) for x in h.items))
            return False
        if k == "str":
            return isinstance(v, VStr)
        if k == "astr":
            return isinstance(v, VStr) and v.ascii
        if k == "opaque":
            return isinstance(v, VOpaque)
        if k == "hashfn":
            return isinstance(v, VCtx) and v.kind == "hashfn"
        if k in USER_OBJECTS:
            return isinstance(v, VCtx) and v.kind == k
        if k == "enum":
            return isinstance(v, VEnum) and v.member == ty.args[0].kind
        if k == "opt":
            if isinstance(v, VUnion):
                return v.u == "opt:" + repr(ty.args[0])
            return v is VNone or self.conforms(v, ty.args[0], st)
        if k == "cls":
            return isinstance(v, VClass)
        if k in self.spec.unions:
            if isinstance(v, VUnion) and not v.u.startswith("tupleof["):
                return v.u == k
            return any(self.conforms(v, c[1], st) for c in self.spec.unions[k].cases)
        if k == "tuple":
            return isinstance(v, VTuple) and len(v.items) == len(ty.args) and \
                all(self.conforms(x, t, st) for x, t in zip(v.items, ty.args))
        if k == "tupleof":
            if isinstance(v, VTuple):
                return all(self.conforms(x, ty.args[0], st) for x in v.items)
            return isinstance(v, VUnion) and (v.u == repr(ty) or self.elem_conv(v, ty) is not None)
        if k == "list":
            if not isinstance(v, VRef):
                return False
            h = st.heap[v.loc]
            if isinstance(h, SList):
                return h.ety == ty.args[0] or (ty.args[0].kind == "item" and h.ety.kind in ("bytes", "bytearray")) \
                    or (ty.args[0].kind == "byteslike" and h.ety.kind in ("bytes", "bytearray", "byteslike"))
            return isinstance(h, LList) and all(self.conforms(x, ty.args[0], st) for x in h.items)
        if k == "onekey":
            h = st.heap[v.loc] if isinstance(v, VRef) else None
            return isinstance(h, CDict) and len(h.items) == 1 and all(isinstance(x, VStr) and x.t is not None for x in h.items[0])
        if k == "dict":
            if not isinstance(v, VRef):
                return False
            h = st.heap[v.loc]
            if isinstance(h, SDict):
                return h.kty == ty.args[0] and h.vty == ty.args[1]
            return isinstance(h, CDict) and all(
                self.conforms(a, ty.args[0], st) and self.conforms(b, ty.args[1], st) for a, b in h.items)
        if isinstance(v, VRef):
            h = st.heap[v.loc]
            cs = self.spec.classes.get(k)
            if cs is not None and cs.cls:
                return isinstance(h, Inst) and h.cls == cs.cls and all(
                    f in h.fields and self.conforms(h.fields[f], t, st) for f, t in cs.fields.items())
            return isinstance(h, Inst) and h.cls == k and (cs is None or self.fields_conform(h, cs, st))
        return False

    def fields_conform(self, h, cs, st):
        return all(f in h.fields and self.conforms(h.fields[f], t, st) for f, t in cs.fields.items())

    def real_class(self, name):
        cs = self.spec.classes.get(name)
        return cs.cls if cs is not None and cs.cls else name

    # ------------------------------------------------------------ fresh values
    def fresh(self, st, ty, hint, noinv=False):
        """Yields (state, value): a new arbitrary value of the type (several for alternatives)."""
        k = ty.kind
        if k == "alt":
            for a in ty.args:
                yield from self.fresh(st.copy(), a, hint, noinv)
            return
        if k == "none":
            yield st, VNone
        elif k == "int":
            yield st, VInt(self.decl(st, hint, "int"))
        elif k == "bool":
            yield st, VBool(self.decl(st, hint, "bool"))
        elif k in ("bytes", "bytearray", "byteslike", "byteseq", "bytes0"):
            t = self.decl(st, hint, "Seq<int>")
            st.fact("is_bytes(%s)" % t)
            yield st, VBytes(t, "bytes" if k == "bytes0" else k)
        elif k in ("str", "astr"):
            t = self.decl(st, hint, "Seq<int>")
            if k == "astr":
                st.fact("is_ascii(%s)" % t)
            yield st, VStr(t, ascii=(k == "astr"))
        elif k == "opaque":
            yield st, VOpaque(hint)
        elif k in USER_OBJECTS:
            yield st, VCtx(k, self.decl(st, hint, "int"))
        elif k == "hashfn":
            t = self.decl(st, hint, "Seq<int>")
            st.fact("known_alg(%s)" % t)
            yield st, VCtx("hashfn", VStr(t, ascii=True))
        elif k == "opt":
            t = self.decl(st, hint, self.sort(ty))
            if self.sort(ty.args[0]) == "Seq<int>":
                st.fact("(%s is Some ==> is_bytes(%s->0))" % (t, t))
            yield st, VUnion("opt:" + repr(ty.args[0]), t)
        elif k == "enum":
            for cn, c in self.w.classes.items():
                if ty.args[0].kind in c.attrs and "Enum" in self.w.base_names(cn):
                    yield st, VEnum(cn, ty.args[0].kind)
                    return
            raise Unsupported("enum member %s not found" % ty.args[0].kind)
        elif k in self.spec.unions:
            us = self.spec.unions[k]
            t = self.decl(st, hint, us.sort)
            if getattr(us, "inv", None):
                st.fact(us.inv.format(t=t))
            yield st, VUnion(k, t)
        elif k == "tuple":
            def rec(s, i, acc):
                if i == len(ty.args):
                    yield s, VTuple(acc)
                    return
                for s2, v in self.fresh(s, ty.args[i], "%s_%d" % (hint, i)):
                    yield from rec(s2, i + 1, acc + [v])
            yield from rec(st, 0, [])
        elif k == "tupleof":
            t = self.decl(st, hint, self.sort(ty))
            self.elem_inv(st, t, ty.args[0])
            yield st, VUnion(repr(ty), t)
        elif k == "list":
            t = self.decl(st, hint, self.sort(ty))
            self.elem_inv(st, t, ty.args[0])
            yield st, self.alloc(st, SList(t, ty.args[0]))
        elif k == "dict":
            t = self.decl(st, hint, self.sort(ty))
            self.dict_inv(st, t, ty)
            yield st, self.alloc(st, SDict(t, ty.args[0], ty.args[1]))
        elif k == "new":
            yield st, self.alloc(st, Inst(self.real_class(ty.args[0].kind), {}))
        elif k == "emptydict":
            yield st, self.alloc(st, CDict([]))
        elif k == "cls":
            yield st, VClass(ty.args[0].kind)
        elif k in self.spec.classes:
            cs = self.spec.classes[k]

            def rec(s, names, acc):
                if not names:
                    r = self.alloc(s, Inst(cs.cls or k, dict(acc)))
                    self.register_alias(s, r.loc, cs)
                    if cs.inv and not noinv:
                        s.fact(self.fill_fields(cs.inv, s.heap[r.loc], cs, s))
                    yield s, r
                    return
                f = names[0]
                for s2, v in self.fresh(s, cs.fields[f], hint + "_" + f.strip("_")):
                    yield from rec(s2, names[1:], acc + [(f, v)])
            yield from rec(st, list(cs.fields), [])
        else:
            raise Unsupported("no fresh value for type %r" % (ty,))

    def elem_inv(self, st, t, ety):
        if ety.kind in ("bytes", "bytearray", "byteslike"):
            st.fact("all_bytes(%s)" % t)
        elif ety.kind == "item":
            st.fact("items_ok(%s)" % t)
        elif ety.kind in self.spec.unions and getattr(self.spec.unions[ety.kind], "seqinv", None):
            st.fact(self.spec.unions[ety.kind].seqinv.format(t=t))
        elif ety.kind == "tuple" and all(a.kind in ("bytes", "astr", "str") for a in ety.args):
            for i, a in enumerate(ety.args):
                p = "is_bytes" if a.kind == "bytes" else "is_ascii"
                if a.kind != "str":
                    st.fact("forall|i: int| 0 <= i < %s.len() ==> %s((#[trigger] %s[i]).%d)" % (t, p, t, i))

    def dict_inv(self, st, t, ty):
        if ty.args[0].kind == "bytes" and ty.args[1].kind in ("bytes", "byteslike"):
            st.fact("map_bytes(%s)" % t)
        elif ty.args[0].kind == "bytes":
            st.fact("map_keys(%s)" % t)
        if getattr(self.spec.unions.get(ty.args[1].kind), "mapinv", None):
            st.fact(self.spec.unions[ty.args[1].kind].mapinv.format(t=t))

    def union_cases(self, v, st):
        """Yields (state, value) for every case of a union value."""
        if v.u.startswith("opt:"):
            inner = parse_ty(v.u[4:])
            s1 = st.copy()
            if self.assume(s1, "%s is None" % v.t):
                yield s1, VNone
            s2 = st.copy()
            if self.assume(s2, "%s is Some" % v.t):
                yield s2, self.wrap("(%s->0)" % v.t, inner, s2)
            return
        if v.u.startswith("tupleof["):
            yield st, v
            return
        us = self.spec.unions[v.u]
        known = [g for g, _, _, _ in us.cases if g.format(t=v.t) in st.facts]
        for g, ty, p, inj in us.cases:
            if known and g != known[0]:
                continue        # the case is settled on this path (cases exclude each other)
            s = st.copy()
            if not self.assume(s, g.format(t=v.t)):
                continue
            yield s, self.wrap(p.format(t=v.t) if p else None, ty, s)

    def narrow(self, v, st):
        """A union value whose case is settled on this path."""
        if isinstance(v, VUnion) and v.u in self.spec.unions:
            for g, ty, p, _ in self.spec.unions[v.u].cases:
                if p and ty.kind in ("bytes", "str", "int", "bool") and g.format(t=v.t) in st.facts:
                    return self.wrap(p.format(t=v.t), ty, st)
        return v

    def wrap(self, term, ty, st):
        """Value of a type from a term."""
        k = ty.kind
        if k == "int":
            return VInt(term)
        if k == "bool":
            return VBool(term)
        if k in ("bytes", "bytearray", "byteslike", "byteseq"):
            st.fact("is_bytes(%s)" % term)
            return VBytes(term, k)
        if k == "bytes0":
            return VBytes(term, "bytes")
        if k in ("str", "astr"):
            return VStr(term, ascii=(k == "astr"))
        if k == "none":
            return VNone
        if k in USER_OBJECTS:
            return VCtx(k, term)
        if k == "list":
            self.elem_inv(st, term, ty.args[0])
            r = self.alloc(st, SList(term, ty.args[0]))
            st.freeze([r.loc], "copy of an element")
            return r
        if k == "dict":
            r = self.alloc(st, SDict(term, ty.args[0], ty.args[1]))
            st.freeze([r.loc], "copy of an element")
            return r
        if k == "onekey":
            r = self.alloc(st, CDict([(VStr("%s.0" % term), VStr("%s.1" % term))]))
            st.freeze([r.loc], "copy of an element")
            return r
        if k == "tuple":
            return VTuple([self.wrap("%s.%d" % (term, i), a, st) for i, a in enumerate(ty.args)])
        if k == "opt":
            return VUnion("opt:" + repr(ty.args[0]), term)
        if k == "tupleof":
            return VUnion(repr(ty), term)
        if k in self.spec.unions:
            return VUnion(k, term)
        if k in self.spec.classes and getattr(self.spec.classes[k], "from_term", None):
            cs = self.spec.classes[k]
            r = self.alloc(st, Inst(k, {f: self.wrap(tt.format(t=term), cs.fields[f], st)
                                        for f, tt in cs.from_term.items()}))
            st.freeze([r.loc], "copy of an element")
            return r
        raise Unsupported("cannot wrap a term as %r" % (ty,))

    def assume(self, st, cond):
        """Add a fact; False when it is syntactically contradictory."""
        if cond == "false" or neg(cond) in st.facts:
            return False
        m = re.fullmatch(r"(.*) is (\w+)", cond)
        if m:
            for f in st.facts:
                m2 = re.fullmatch(r"(.*) is (\w+)", f)
                if m2 and m2.group(1) == m.group(1) and m2.group(2) != m.group(2) and "(" not in m2.group(2):
                    return False
        st.fact(cond)
        return True

    def decide(self, st, b):
        if b.c is not None:
            return b.c
        if b.t in st.facts:
            return True
        if neg(b.t) in st.facts:
            return False
        return None

    def fork(self, st, b):
        """Yields (state, python bool)."""
        d = self.decide(st, b)
        if d is not None:
            yield st, d
            return
        s1 = st.copy()
        s1.fact(b.t)
        yield s1, True
        s2 = st.copy()
        s2.fact(neg(b.t))
        yield s2, False

    # ------------------------------------------------------------ exceptions
    def exc_permitted(self, st, cls):
        for h in st.handlers:
            for t in h:
                if t == "*" or self.w.exc_is(cls, t):
                    return True
        for r in self.cur_contract.raises:
            for t in r.classes:
                if t == "*" or self.w.exc_is(cls, t):
                    return True
        return False

    def guard(self, st, ok, cls, node, what):
        """Python raises `cls` unless `ok`. Yields (state, None|Exc)."""
        if isinstance(ok, VBool):
            d = self.decide(st, ok)
            okt = ok.t
        else:
            okt = ok
            d = self.decide(st, VBool(ok, None))
            if ok == "true":
                d = True
            if ok == "false":
                d = False
        if d is True:
            yield st, None
            return
        if d is False:
            yield st, Exc([cls], getattr(node, "lineno", None), what)
            return
        if self.exc_permitted(st, cls):
            s1 = st.copy()
            s1.fact(okt)
            yield s1, None
            s2 = st.copy()
            s2.fact(neg(okt))
            yield s2, Exc([cls], getattr(node, "lineno", None), what)
        else:
            self.ob(st, "no-%s:%s" % (cls, what), okt, node)
            yield st, None

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        if not stmts:
            yield st, "next", None
            return
        for s1, k, p in self.exec_stmt(stmts[0], st):
            if k == "next":
                yield from self.exec_block(stmts[1:], s1)
            else:
                yield s1, k, p

    def exec_stmt(self, n, st):
        m = getattr(self, "st_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(n).__name__, n)
        try:
            yield from m(n, st)
        except Unsupported as e:
            if e.line is None:
                e.line = getattr(n, "lineno", None)
            raise

    def st_Pass(self, n, st):
        yield st, "next", None

    def st_Import(self, n, st):
        env = dict(st.env)
        for a in n.names:
            env[a.asname or a.name.split(".")[0]] = VExt(a.name if a.asname else a.name.split(".")[0])
        yield st.with_env(env), "next", None

    def st_ImportFrom(self, n, st):
        if n.level:
            raise Unsupported("local relative import", n)
        env = dict(st.env)
        for a in n.names:
            env[a.asname or a.name] = VExt(n.module + "." + a.name)
        yield st.with_env(env), "next", None

    def st_Global(self, n, st):
        raise Unsupported("global statement", n)

    def st_FunctionDef(self, n, st):
        env = dict(st.env)
        f = VFunc(n, st.env["__module__"], st.env.get("__cls__"), n.name, closure=True)
        env[n.name] = f
        f.closure = env
        yield st.with_env(env), "next", None

    def st_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            yield st, "next", None
            return
        for s1, v in self.ev(n.value, st):
            if isinstance(v, Exc):
                yield s1, "raise", v
            else:
                yield s1, "next", None

    def st_Return(self, n, st):
        if n.value is None:
            yield st, "return", VNone
            return
        for s1, v in self.ev(n.value, st):
            if isinstance(v, Exc):
                yield s1, "raise", v
            else:
                yield s1, "return", v

    def st_Raise(self, n, st):
        if n.exc is None:
            if "__curexc__" in st.env:
                yield st, "raise", st.env["__curexc__"]
                return
            raise Unsupported("bare raise", n)
        e = n.exc
        # arguments of the exception are evaluated for their effects only; formatting a
        # message is assumed not to change state (an exception in it is an exception too)
        cls = None
        f = e.func if isinstance(e, ast.Call) else e
        for s1, fv in self.ev(f, st):
            if isinstance(fv, VClass):
                cls = fv.name
            elif isinstance(fv, VExt):
                cls = fv.name.split(".")[-1]
            elif isinstance(fv, VExcObj):
                yield s1, "raise", Exc(fv.classes, n.lineno)
                continue
            elif isinstance(fv, Exc):
                yield s1, "raise", fv
                continue
            else:
                raise Unsupported("raise of " + type(fv).__name__, n)
            yield s1, "raise", Exc([cls], n.lineno, "raise")

    def st_Assert(self, n, st):
        for s1, b in self.ev_cond(n.test, st):
            if isinstance(b, Exc):
                yield s1, "raise", b
                continue
            for s2, ex in self.guard(s1, b, "AssertionError", n, "assert"):
                if ex is None:
                    yield s2, "next", None
                else:
                    yield s2, "raise", ex

    def st_Assign(self, n, st):
        for s1, v in self.ev(n.value, st):
            if isinstance(v, Exc):
                yield s1, "raise", v
                continue
            outs = [(s1, None)]
            for t in n.targets:
                nxt = []
                for s2, ex in outs:
                    if ex is not None:
                        nxt.append((s2, ex))
                        continue
                    nxt.extend(self.assign(t, v, s2))
                outs = nxt
            for s2, ex in outs:
                if ex is None:
                    yield s2, "next", None
                else:
                    yield s2, "raise", ex

    def st_AnnAssign(self, n, st):
        if n.value is None:
            yield st, "next", None
            return
        for s1, v in self.ev(n.value, st):
            if isinstance(v, Exc):
                yield s1, "raise", v
                continue
            for s2, ex in self.assign(n.target, v, s1):
                if ex is None:
                    yield s2, "next", None
                else:
                    yield s2, "raise", ex

    def st_AugAssign(self, n, st):
        load = ast.copy_location(ast.parse(ast.unparse(n.target), mode="eval").body, n)
        ast.fix_missing_locations(load)
        # list += iterable is in-place extend
        for s0, lv in self.ev(load, st):
            if isinstance(lv, Exc):
                yield s0, "raise", lv
                continue
            for s1, rv in self.ev(n.value, s0):
                if isinstance(rv, Exc):
                    yield s1, "raise", rv
                    continue
                if isinstance(lv, VRef) and isinstance(s1.heap[lv.loc], (LList, SList)) and isinstance(n.op, ast.Add):
                    for s2, r in self.bm.list_extend(lv, rv, s1, n):
                        if isinstance(r, Exc):
                            yield s2, "raise", r
                        else:
                            yield s2, "next", None
                    continue
                if isinstance(lv, VBytes) and lv.kind in ("bytearray", "byteslike"):
                    raise Unsupported("in-place change of a bytearray", n)
                for s2, v in self.bm.binop(n.op, lv, rv, s1, n):
                    if isinstance(v, Exc):
                        yield s2, "raise", v
                        continue
                    for s3, ex in self.assign(n.target, v, s2):
                        if ex is None:
                            yield s3, "next", None
                        else:
                            yield s3, "raise", ex

    def unpack_seq(self, t, term, st, item, rest, sort):
        """a, b = seq  and  a, *b, c = seq  for a symbolic sequence."""
        stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        n = len(t.elts) - len(stars)
        for s1, ex in self.guard(st, "%s.len() %s %d" % (self.paren2(term), ">=" if stars else "==", n), "ValueError", t, "unpack"):
            if ex is not None:
                yield s1, ex
                continue
            if not stars:
                vals = [item(str(i), s1) for i in range(n)]
            else:
                i, tail = stars[0], n - stars[0]
                ln = "%s.len()" % self.paren2(term)
                s1 = s1.copy()
                term1 = self.let(s1, "slice", sort, "pyslice(%s, %d, %s - %d)" % (term, i, ln, tail))
                cut = self.alloc(s1, rest(term1))
                self.elem_inv(s1, term1, s1.heap[cut.loc].ety)
                vals = [item(str(j), s1) for j in range(i)] + [cut] + [item("%s - %d" % (ln, tail - j), s1) for j in range(tail)]
            names = ast.copy_location(ast.Tuple([e.value if isinstance(e, ast.Starred) else e for e in t.elts], ast.Store()), t)
            yield from self.assign(names, VTuple(vals), s1)

    def assign(self, t, v, st):
        """Yields (state, None|Exc)."""
        if isinstance(t, ast.Name):
            if isinstance(v, VIter) and v.once or isinstance(v, VCtx) and v.kind == "genexp":
                raise Unsupported("an iterator is kept in a variable", t)
            env = dict(st.env)
            env[t.id] = v
            yield st.with_env(env), None
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, VUnion) and v.u.startswith("tupleof["):
                ety = parse_ty(v.u).args[0]
                yield from self.unpack_seq(t, v.t, st, lambda i, s: self.wrap("%s[%s]" % (v.t, i), ety, s),
                                           lambda x: SList(x, ety), "Seq<%s>" % self.sort(ety))
                return
            if isinstance(v, VUnion):
                for s1, x in self.union_cases(v, st):
                    if isinstance(x, VUnion) and x.t == v.t:
                        raise Unsupported("unpacking of a union", t)
                    yield from self.assign(t, x, s1)
                return
            items = None
            if isinstance(v, VTuple):
                items = v.items
            elif isinstance(v, VRef) and isinstance(st.heap[v.loc], LList):
                items = list(st.heap[v.loc].items)
            elif isinstance(v, VRef) and isinstance(st.heap[v.loc], SList):
                h = st.heap[v.loc]
                yield from self.unpack_seq(t, h.term, st, lambda i, s: self.wrap("%s[%s]" % (h.term, i), h.ety, s),
                                           lambda x: SList(x, h.ety), "Seq<%s>" % self.sort(h.ety))
                return
            elif isinstance(v, VBytes) and v.kind != "byteseq":
                def byte(i, s):
                    s.fact("0 <= %s[%s] < 256" % (v.t, i))
                    return VInt("%s[%s]" % (v.t, i))
                yield from self.unpack_seq(t, v.t, st, byte, lambda x: SList(x, parse_ty("int")), "Seq<int>")
                return
            elif v is VNone or isinstance(v, (VInt, VBool)):
                yield st, Exc(["TypeError"], t.lineno, "unpack")
                return
            elif isinstance(v, VIter) and v.items is not None:
                items = list(v.items)
            if items is None:
                raise Unsupported("unpacking of " + type(v).__name__, t)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                i, n = stars[0], len(t.elts) - 1
                if len(items) < n:
                    yield st, Exc(["ValueError"], t.lineno, "unpack")
                    return
                st = st.copy()
                rest = self.alloc(st, LList(items[i:len(items) - (n - i)]))
                items = list(items[:i]) + [rest] + list(items[len(items) - (n - i):])
                t = ast.copy_location(ast.Tuple([e.value if isinstance(e, ast.Starred) else e for e in t.elts], ast.Store()), t)
            if len(items) != len(t.elts):
                yield st, Exc(["ValueError"], t.lineno, "unpack")
                return
            outs = [(st, None)]
            for e, x in zip(t.elts, items):
                nxt = []
                for s1, ex in outs:
                    if ex is not None:
                        nxt.append((s1, ex))
                    else:
                        nxt.extend(self.assign(e, x, s1))
                outs = nxt
            yield from outs
        elif isinstance(t, ast.Attribute):
            for s1, o in self.ev(t.value, st):
                if isinstance(o, Exc):
                    yield s1, o
                    continue
                yield from self.set_attr(o, t.attr, v, s1, t)
        elif isinstance(t, ast.Subscript):
            for s1, o in self.ev(t.value, st):
                if isinstance(o, Exc):
                    yield s1, o
                    continue
                for s2, i in self.ev_index(t.slice, s1):
                    if isinstance(i, Exc):
                        yield s2, i
                        continue
                    yield from self.bm.set_item(o, i, v, s2, t)
        else:
            raise Unsupported("assignment target " + type(t).__name__, t)

    def set_attr(self, o, name, v, st, node):
        if isinstance(o, VUnion):
            for s1, x in self.union_cases(o, st):
                yield from self.set_attr(x, name, v, s1, node)
            return
        if not isinstance(o, VRef) or not isinstance(st.heap[o.loc], Inst):
            raise Unsupported("attribute store on " + type(o).__name__, node)
        h = st.heap[o.loc]
        for k in self.w.mro(h.cls):
            c = self.w.classes.get(k)
            if c and name in c.setters:
                f = VFunc(c.setters[name], c.module, c.name, c.name + "." + name + ".setter")
                for s1, r in self.call_func(f, [o, v], {}, st, node):
                    yield s1, (r if isinstance(r, Exc) else None)
                return
            if c and name in c.props:
                yield st, Exc(["AttributeError"], getattr(node, "lineno", None), "no setter")
                return
            if c and (name in c.attrs or name in c.methods):
                break
        if name not in h.fields and h.cls in self.spec.classes and name not in self.spec.classes[h.cls].fields \
                and any(name in cs.fields for cs in self.spec.classes.values()) \
                and not set(self.w.mro(h.cls)) & self.w.self_stores.get(name, set()):
            raise Unsupported("attribute %s stored on a %s" % (name, h.cls), node)
        s1 = st.copy()
        self.write(s1, o.loc, h.set(name, v), node)
        yield s1, None

    def st_Delete(self, n, st):
        outs = [(st, None)]
        for t in n.targets:
            nxt = []
            for s0, ex in outs:
                if ex is not None:
                    nxt.append((s0, ex))
                    continue
                if isinstance(t, ast.Name):
                    env = dict(s0.env)
                    env.pop(t.id, None)
                    nxt.append((s0.with_env(env), None))
                elif isinstance(t, ast.Subscript):
                    for s1, o in self.ev(t.value, s0):
                        if isinstance(o, Exc):
                            nxt.append((s1, o))
                            continue
                        for s2, i in self.ev_index(t.slice, s1):
                            if isinstance(i, Exc):
                                nxt.append((s2, i))
                                continue
                            nxt.extend(self.bm.del_item(o, i, s2, t))
                else:
                    raise Unsupported("del of " + type(t).__name__, n)
            outs = nxt
        for s0, ex in outs:
            yield (s0, "next", None) if ex is None else (s0, "raise", ex)

    def st_If(self, n, st):
        for s1, b in self.ev_cond(n.test, st):
            if isinstance(b, Exc):
                yield s1, "raise", b
                continue
            for s2, d in self.fork(s1, b):
                yield from self.exec_block(n.body if d else n.orelse, s2)

    def st_Break(self, n, st):
        yield st, "break", None

    def st_Continue(self, n, st):
        yield st, "continue", None

    def handler_types(self, h, st):
        if h.type is None:
            return ["*"]
        elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [ast.unparse(e).split(".")[-1] for e in elts]

    def st_Try(self, n, st):
        types = []
        for h in n.handlers:
            ts = self.handler_types(h, st)
            types += ["*" if t in ("Exception", "BaseException") else t for t in ts]
        s0 = st.copy()
        old = st.handlers
        s0.handlers = old + (tuple(types),)
        if n.finalbody:
            s0.handlers = s0.handlers + (("*",),)
        for s1, k, p in self.exec_block(n.body, s0):
            s1 = s1.copy()
            s1.handlers = old
            if k != "raise":
                if k == "next" and n.orelse:
                    yield from self.finally_(n, self.exec_block(n.orelse, s1))
                else:
                    yield from self.finally_(n, [(s1, k, p)])
                continue
            remaining = set(p.classes)
            for h in n.handlers:
                ts = self.handler_types(h, st)
                caught = set()
                for c in list(remaining):
                    if c == "*":
                        if any(t in ("*", "Exception", "BaseException") for t in ts):
                            caught.add(c)
                        else:
                            caught.add(c)   # may or may not be caught
                        continue
                    if any(t == "*" or self.w.exc_is(c, t) for t in ts):
                        caught.add(c)
                definite = set(c for c in caught if c != "*" or
                               any(t in ("*", "Exception", "BaseException") for t in ts))
                remaining -= definite
                if caught:
                    s2 = s1.copy()
                    env = dict(s2.env)
                    env["__curexc__"] = Exc(caught, p.line, p.why)
                    if h.name:
                        env[h.name] = VExcObj(caught)
                    s2.env = env
                    yield from self.finally_(n, self.exec_block(h.body, s2))
            if remaining:
                yield from self.finally_(n, [(s1, "raise", Exc(remaining, p.line, p.why))])

    def finally_(self, n, outs):
        for s, k, p in outs:
            if not n.finalbody:
                yield s, k, p
                continue
            for s2, k2, p2 in self.exec_block(n.finalbody, s):
                if k2 == "next":
                    yield s2, k, p
                else:
                    yield s2, k2, p2

    def st_With(self, n, st):
        if len(n.items) != 1:
            raise Unsupported("with of several items", n)
        it = n.items[0]
        for s1, v in self.ev(it.context_expr, st):
            if isinstance(v, Exc):
                yield s1, "raise", v
                continue
            if not (isinstance(v, VRef) and isinstance(s1.heap[v.loc], Inst) and s1.heap[v.loc].cls.startswith("ext:")):
                raise Unsupported("with over " + type(v).__name__, n)
            starts = self.assign(it.optional_vars, v, s1) if it.optional_vars is not None else [(s1, None)]
            for s2, ex in starts:
                if ex is not None:
                    yield s2, "raise", ex
                    continue
                for s3, k, p in self.exec_block(n.body, s2):
                    s4 = s3.copy()
                    for s5, ex in self.bm.x.exit_(v, s4, n):
                        if ex is not None:
                            yield s5, "raise", ex
                        else:
                            yield s5, k, p

    # ------------------------------------------------------------ loops
    def st_For(self, n, st):
        self.range_of[id(n.iter)] = n
        for s1, it in self.ev(n.iter, st):
            if isinstance(it, Exc):
                yield s1, "raise", it
                continue
            for s2, vi in self.bm.iterate(it, s1, n):
                if isinstance(vi, Exc):
                    yield s2, "raise", vi
                    continue
                if vi.items is not None:
                    yield from self.for_concrete(n, vi.items, s2, vi.srcs, getattr(vi, "view", False))
                else:
                    from .loops import LoopRunner
                    lr = LoopRunner(self, n, s2, vi)
                    yield from lr.run()

    @staticmethod
    def values_before(old, new, i):
        """Only values of the entries visited so far were replaced, so a view of the dictionary goes on as it would have."""
        return isinstance(old, CDict) and isinstance(new, CDict) and len(old.items) == len(new.items) \
            and all(a[0] is b[0] and (j <= i or a[1] is b[1]) for j, (a, b) in enumerate(zip(old.items, new.items)))

    def for_concrete(self, n, items, st, srcs={}, view=False):
        if len(items) > MAX_UNROLL:
            raise Unsupported("loop over %d concrete items" % len(items), n)

        def rec(s, i, srcs):
            if i == len(items):
                yield from self.exec_block(n.orelse, s)
                return
            for s1, ex in self.assign(n.target, items[i], s):
                if ex is not None:
                    yield s1, "raise", ex
                    continue
                for s2, k, p in self.exec_block(n.body, s1):
                    if k in ("next", "continue") and any(s2.heap.get(l) is not r and not (view and self.values_before(r, s2.heap.get(l), i))
                                                         for l, r in srcs.items()):
                        raise Unsupported("a sequence is modified while it is iterated", n)
                    if k in ("next", "continue"):
                        yield from rec(s2, i + 1, {l: s2.heap[l] for l in srcs})
                    elif k == "break":
                        yield s2, "next", None
                    else:
                        yield s2, k, p
        yield from rec(st, 0, srcs)

    def st_While(self, n, st):
        from .loops import LoopRunner
        yield from LoopRunner(self, n, st, None).run()

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__, e)
        try:
            yield from m(e, st)
        except Unsupported as u:
            if u.line is None:
                u.line = getattr(e, "lineno", None)
            raise

    def ev_list(self, es, st):
        """Yields (state, [values]) or (state, Exc)."""
        def rec(s, i, acc):
            if i == len(es):
                yield s, acc
                return
            e = es[i]
            if isinstance(e, ast.Starred):
                for s1, v in self.ev(e.value, s):
                    if isinstance(v, Exc):
                        yield s1, v
                        continue
                    for s2, vi in self.bm.iterate(v, s1, e):
                        if isinstance(vi, Exc):
                            yield s2, vi
                        elif vi.items is None:
                            raise Unsupported("star of a symbolic sequence", e)
                        else:
                            yield from rec(s2, i + 1, acc + list(vi.items))
                return
            for s1, v in self.ev(e, s):
                if isinstance(v, Exc):
                    yield s1, v
                else:
                    yield from rec(s1, i + 1, acc + [v])
        yield from rec(st, 0, [])

    def ev_cond(self, e, st):
        """Evaluate as truth value: yields (state, VBool|Exc)."""
        if isinstance(e, ast.BoolOp):
            yield from self.boolop_cond(e, st)
            return
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            for s1, b in self.ev_cond(e.operand, st):
                if isinstance(b, Exc):
                    yield s1, b
                elif b.c is not None:
                    yield s1, VBool.const(not b.c)
                else:
                    yield s1, VBool(neg(b.t))
            return
        for s1, v in self.ev(e, st):
            if isinstance(v, Exc):
                yield s1, v
                continue
            yield from self.bm.truth(v, s1, e)

    def boolop_cond(self, e, st):
        isand = isinstance(e.op, ast.And)

        def rec(s, i):
            for s1, b in self.ev_cond(e.values[i], s):
                if isinstance(b, Exc) or i == len(e.values) - 1:
                    yield s1, b
                    continue
                d = self.decide(s1, b)
                if d is not None:
                    if d == isand:
                        yield from rec(s1, i + 1)
                    else:
                        yield s1, VBool.const(d)
                    continue
                # try a pure combination
                s2 = s1.copy()
                s2.fact(b.t if isand else neg(b.t))
                mark = len(s2.trace)
                rest = list(rec(s2, i + 1))
                if len(rest) == 1 and not isinstance(rest[0][1], Exc) and len(rest[0][0].trace) == mark \
                        and self.same_heap(rest[0][0], s2):
                    r = rest[0][1]
                    if r.c is not None:
                        if isand:
                            t = b if r.c else VBool.const(False)
                        else:
                            t = VBool.const(True) if r.c else b
                        yield s1, t
                    else:
                        yield s1, VBool("(%s %s %s)" % (paren(b.t), "&&" if isand else "||", paren(r.t)))
                    continue
                yield from rest
                s3 = s1.copy()
                s3.fact(neg(b.t) if isand else b.t)
                yield s3, VBool.const(not isand)
        yield from rec(st, 0)

    def same_heap(self, a, b):
        return a.heap.keys() == b.heap.keys() and all(a.heap[k] is b.heap[k] for k in a.heap)

    def ex_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)

        def rec(s, i):
            for s1, v in self.ev(e.values[i], s):
                if isinstance(v, Exc) or i == len(e.values) - 1:
                    yield s1, v
                    continue
                if isinstance(v, VBool) or all(isinstance(x, (ast.Compare, ast.UnaryOp, ast.BoolOp)) for x in e.values):
                    pass
                for s2, b in self.bm.truth(v, s1, e):
                    if isinstance(b, Exc):
                        yield s2, b
                        continue
                    for s3, d in self.fork(s2, b):
                        if d == isand:
                            yield from rec(s3, i + 1)
                        else:
                            yield s3, (v if not isinstance(v, VBool) else VBool.const(d))
        # boolean operands: use the merged form
        if self.all_bool(e):
            yield from self.boolop_cond(e, st)
        else:
            yield from rec(st, 0)

    def all_bool(self, e):
        if isinstance(e, ast.BoolOp):
            return all(self.all_bool(x) for x in e.values)
        if isinstance(e, ast.Compare):
            return True
        if isinstance(e, ast.UnaryOp):
            return isinstance(e.op, ast.Not)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            return e.func.id in ("isinstance", "hasattr", "all", "any", "bool", "callable")
        return isinstance(e, ast.Constant) and isinstance(e.value, bool)

    def ex_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            yield from self.ev_cond(e, st)
            return
        for s1, v in self.ev(e.operand, st):
            if isinstance(v, Exc):
                yield s1, v
            elif isinstance(v, VInt) and isinstance(e.op, ast.USub):
                yield s1, (VInt.const(-v.c) if v.c is not None else VInt("(-%s)" % paren(v.t)))
            elif isinstance(v, VInt) and isinstance(e.op, ast.UAdd):
                yield s1, v
            elif isinstance(v, VInt) and isinstance(e.op, ast.Invert):
                yield s1, (VInt.const(~v.c) if v.c is not None else VInt("(-1 - %s)" % paren(v.t)))
            else:
                raise Unsupported("unary operator on " + type(v).__name__, e)

    def ex_Constant(self, e, st):
        v = e.value
        if v is None:
            yield st, VNone
        elif v is Ellipsis:
            yield st, VEll
        elif isinstance(v, bool):
            yield st, VBool.const(v)
        elif isinstance(v, int):
            yield st, VInt.const(v)
        elif isinstance(v, bytes):
            yield st, VBytes(None, "bytes", c=v)
        elif isinstance(v, str):
            yield st, VStr(c=v)
        elif isinstance(v, float):
            yield st, VCtx("float", v)
        else:
            raise Unsupported("constant %r" % (v,), e)

    def ex_JoinedStr(self, e, st):
        # text of messages and representations is not modelled
        yield st, VStr(None)

    def ex_Name(self, e, st):
        if e.id in st.env:
            yield st, st.env[e.id]
            return
        v = self.lookup_global(e.id, st.env["__module__"], st)
        if v is None:
            raise Unsupported("unknown name " + e.id, e)
        if isinstance(v, ast.AST):
            if (v.pyv_module.name, e.id) in self.w.multi or e.id in self.w.rebound:
                raise Unsupported("module variable %s is rebound" % e.id, e)
            s = st.copy()
            s.env = {"__module__": v.pyv_module, "__cls__": None}
            for s1, x in self.ev(v, s):
                self.immutable(x, s1, e.id, e)
                yield s1.with_env(st.env), x
            return
        yield st, v

    def immutable(self, v, st, name, node):
        """Module variables and class attributes are re-evaluated at each use: only sound for immutable values."""
        if isinstance(v, VRef) and not (isinstance(st.heap[v.loc], Inst) and st.heap[v.loc].cls == "ext:sedes"):
            h = st.heap[v.loc]
            if isinstance(h, LList) and name is not None and self.w.only_read(name):
                # a list that the package only reads
                for x in h.items:
                    self.immutable(x, st, None, node)
                self.assumptions.add("nobody changes the list %s" % name)
                return
            raise Unsupported("shared mutable object %s" % name, node)
        if isinstance(v, VTuple):
            for x in v.items:
                self.immutable(x, st, name, node)

    def lookup_global(self, name, mod, st):
        if name in mod.funcs:
            return VFunc(mod.funcs[name], mod, None, name)
        if name in mod.classes:
            return VClass(name)
        if name in mod.assigns:
            n = mod.assigns[name]
            n.pyv_module = mod
            return n
        if name in mod.imports:
            im = mod.imports[name]
            if im[0] == "ext":
                return VExt(im[1])
            m2 = self.w.modules.get(im[1])
            if m2 is None:
                full = (im[1] + "." if im[1] else "") + im[2]
                if full in self.w.modules:
                    return VCtx("module", self.w.modules[full])
                raise Unsupported("unresolved import %s" % (im,))
            sub = (im[1] + "." if im[1] else "") + im[2]
            r = self.lookup_global(im[2], m2, st)
            if r is None and sub in self.w.modules:
                return VCtx("module", self.w.modules[sub])
            return r
        import builtins
        if hasattr(builtins, name):
            return VExt("builtins." + name)
        return None

    def spread(self, e):
        """[a, *s, b] as [a] + list(s) + [b]."""
        parts, run = [], []
        for x in e.elts + [None]:
            if x is None or isinstance(x, ast.Starred):
                if run:
                    parts.append(ast.List(run, ast.Load()))
                    run = []
                if x is not None:
                    parts.append(ast.Call(ast.Name("list", ast.Load()), [x.value], []))
            else:
                run.append(x)
        out = parts[0]
        for p in parts[1:]:
            out = ast.BinOp(out, ast.Add(), p)
        for y in ast.walk(out):
            if "lineno" in getattr(y, "_attributes", ()) and not hasattr(y, "lineno"):
                ast.copy_location(y, e)
        return out

    def ex_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            for s1, v in self.ev(self.spread(e), st):
                if isinstance(v, Exc):
                    yield s1, v
                else:
                    yield from self.bm.b_tuple([v], {}, s1, e)
            return
        for s1, vs in self.ev_list(e.elts, st):
            yield s1, (vs if isinstance(vs, Exc) else VTuple(vs))

    def ex_List(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            yield from self.ev(self.spread(e), st)
            return
        for s1, vs in self.ev_list(e.elts, st):
            if isinstance(vs, Exc):
                yield s1, vs
            else:
                s2 = s1.copy()
                yield s2, self.alloc(s2, LList(vs))

    def ex_Dict(self, e, st):
        if any(k is None for k in e.keys):
            raise Unsupported("dict unpacking", e)
        for s1, ks in self.ev_list(e.keys, st):
            if isinstance(ks, Exc):
                yield s1, ks
                continue
            for s2, vs in self.ev_list(e.values, s1):
                if isinstance(vs, Exc):
                    yield s2, vs
                    continue
                s3 = s2.copy()
                yield s3, self.alloc(s3, CDict(list(zip(ks, vs))))

    def ex_IfExp(self, e, st):
        for s1, b in self.ev_cond(e.test, st):
            if isinstance(b, Exc):
                yield s1, b
                continue
            d = self.decide(s1, b)
            if d is not None:
                yield from self.ev(e.body if d else e.orelse, s1)
                continue
            sa = s1.copy()
            sa.fact(b.t)
            sb = s1.copy()
            sb.fact(neg(b.t))
            ma, mb = len(sa.trace), len(sb.trace)
            ra = list(self.ev(e.body, sa))
            rb = list(self.ev(e.orelse, sb))
            if len(ra) == 1 and len(rb) == 1 and len(ra[0][0].trace) == ma and len(rb[0][0].trace) == mb \
                    and self.same_heap(ra[0][0], s1) and self.same_heap(rb[0][0], s1):
                m = self.merge_ite(b.t, ra[0][1], rb[0][1])
                if m is not None:
                    yield s1, m
                    continue
            yield from ra
            yield from rb

    def merge_ite(self, c, a, b):
        if isinstance(a, Exc) or isinstance(b, Exc):
            return None
        f = "(if %s { %s } else { %s })"
        if isinstance(a, VInt) and isinstance(b, VInt):
            return VInt(f % (c, a.t, b.t))
        if isinstance(a, VBool) and isinstance(b, VBool):
            return VBool(f % (c, a.t, b.t))
        if isinstance(a, VBytes) and isinstance(b, VBytes) and a.kind == b.kind:
            return VBytes(f % (c, a.t, b.t), a.kind)
        return None

    def ex_NamedExpr(self, e, st):
        for s1, v in self.ev(e.value, st):
            if isinstance(v, Exc):
                yield s1, v
                continue
            for s2, ex in self.assign(e.target, v, s1):
                yield s2, (v if ex is None else ex)

    def ex_BinOp(self, e, st):
        for s1, a in self.ev(e.left, st):
            if isinstance(a, Exc):
                yield s1, a
                continue
            for s2, b in self.ev(e.right, s1):
                if isinstance(b, Exc):
                    yield s2, b
                    continue
                yield from self.bm.binop(e.op, a, b, s2, e)

    def ex_Compare(self, e, st):
        def rec(s, left, i):
            for s1, r in self.ev(e.comparators[i], s):
                if isinstance(r, Exc):
                    yield s1, r
                    continue
                for s2, b in self.bm.compare(e.ops[i], left, r, s1, e):
                    if isinstance(b, Exc) or i == len(e.ops) - 1:
                        yield s2, b
                        continue
                    for s3, d in self.fork(s2, b):
                        if d:
                            yield from rec(s3, r, i + 1)
                        else:
                            yield s3, VBool.const(False)
        for s1, l in self.ev(e.left, st):
            if isinstance(l, Exc):
                yield s1, l
            else:
                yield from rec(s1, l, 0)

    def ev_index(self, e, st):
        if isinstance(e, ast.Slice):
            parts = [e.lower, e.upper, e.step]

            def rec(s, i, acc):
                if i == 3:
                    yield s, VCtx("slice", acc)
                    return
                if parts[i] is None:
                    yield from rec(s, i + 1, acc + [None])
                    return
                for s1, v in self.ev(parts[i], s):
                    if isinstance(v, Exc):
                        yield s1, v
                    else:
                        yield from rec(s1, i + 1, acc + [None if v is VNone else v])
            yield from rec(st, 0, [])
            return
        yield from self.ev(e, st)

    def ex_Subscript(self, e, st):
        for s1, o in self.ev(e.value, st):
            if isinstance(o, Exc):
                yield s1, o
                continue
            for s2, i in self.ev_index(e.slice, s1):
                if isinstance(i, Exc):
                    yield s2, i
                    continue
                yield from self.bm.get_item(o, i, s2, e)

    def ex_Attribute(self, e, st):
        for s1, o in self.ev(e.value, st):
            if isinstance(o, Exc):
                yield s1, o
                continue
            yield from self.get_attr(o, e.attr, s1, e)

    def get_attr(self, o, name, st, node):
        if isinstance(o, VUnion):
            for s1, x in self.union_cases(o, st):
                if isinstance(x, VUnion):
                    yield s1, VBuiltinMethod(x, name)
                else:
                    yield from self.get_attr(x, name, s1, node)
            return
        if isinstance(o, VExt):
            if o.name in ("builtins.bytes", "builtins.bytearray", "builtins.dict", "builtins.str", "builtins.int"):
                yield st, VExt(o.name + "." + name)
                return
            yield from self.bm.ext_attr(o, name, st, node)
            return
        if isinstance(o, VCtx) and o.kind in USER_OBJECTS:
            if name in USER_OBJECTS[o.kind]:
                yield st, VBuiltinMethod(o, name)
            elif name.startswith("__"):
                raise Unsupported("attribute %s of an object of the user" % name, node)
            else:
                yield st, Exc(["AttributeError"], getattr(node, "lineno", None), name)
            return
        if isinstance(o, VCtx) and o.kind == "module":
            r = self.lookup_global(name, o.data, st)
            if r is None or isinstance(r, ast.AST):
                raise Unsupported("module attribute " + name, node)
            yield st, r
            return
        if isinstance(o, VSuper):
            f, c = self.w.find_method(self.dyn_cls(o.recv, st), name, after=o.cls)
            if f is None:
                if name == "__init__":
                    yield st, VExt("object.__init__")
                    return
                raise Unsupported("super().%s" % name, node)
            yield st, VBound(o.recv, f)
            return
        if isinstance(o, VClass):
            for k in self.w.mro(o.name):
                c = self.w.classes.get(k)
                if c is None:
                    continue
                if name in c.methods:
                    f = self.w.functions[c.name + "." + name]
                    if name in c.clsm:
                        yield st, VBound(VClass(o.name), f)
                    else:
                        yield st, f
                    return
                if name in c.inner:
                    yield st, VClass(name)
                    return
                if name in c.attrs:
                    if "Enum" in self.w.base_names(c.name):
                        yield st, VEnum(c.name, self.enum_alias(c, name))
                        return
                    yield from self.class_attr(c, name, st)
                    return
            if name == "__name__":
                yield st, VStr(c=o.name)
                return
            raise Unsupported("class attribute %s.%s" % (o.name, name), node)
        if isinstance(o, VRef):
            h = st.heap[o.loc]
            if isinstance(h, Inst):
                if h.cls.startswith("ext:"):
                    yield from self.bm.ext_obj_attr(o, h, name, st, node)
                    return
                if name == "__class__":
                    yield st, VClass(h.cls)
                    return
                # data descriptors first
                for k in self.w.mro(h.cls):
                    c = self.w.classes.get(k)
                    if c and name in c.props:
                        f = self.w.functions[c.name + "." + name]
                        yield from self.call_func(f, [o], {}, st, node)
                        return
                if name in h.fields:
                    if (o.loc, name) in self.noread:
                        self.ob(st, "does not depend on %s" % name, "false", node)
                    yield st, h.fields[name]
                    return
                for k in self.w.mro(h.cls):
                    c = self.w.classes.get(k)
                    if c is None:
                        continue
                    if name in c.methods:
                        f = self.w.functions[c.name + "." + name]
                        if name in c.static:
                            yield st, f
                        elif name in c.clsm:
                            yield st, VBound(VClass(h.cls), f)
                        else:
                            yield st, VBound(o, f)
                        return
                    if name in c.inner:
                        yield st, VClass(name)
                        return
                    if name in c.attrs:
                        if name in self.w.stored_attrs:
                            raise Unsupported("class attribute %s may be shadowed" % name, node)
                        yield from self.class_attr(c, name, st)
                        return
                cs = self.spec.classes.get(h.cls)
                if cs is not None:
                    # an attribute no class of the repository defines
                    mine = set(self.w.mro(h.cls)) & self.w.self_stores.get(name, set())
                    if not mine and not name.startswith("__"):
                        if name in self.w.other_stores:
                            self.assumptions.add("no %s object has an attribute %s (stores through other names are checked where the "
                                                 "storing function is under contract)" % (h.cls, name))
                        yield st, Exc(["AttributeError"], getattr(node, "lineno", None), name)
                        return
                raise Unsupported("attribute %s of %s" % (name, h.cls), node)
            if isinstance(h, Dead):
                raise Unsupported("use of an object whose content is unknown (%s)" % h.why, node)
            yield st, VBuiltinMethod(o, name)
            return
        if isinstance(o, (VBytes, VStr, VTuple, VInt)):
            yield st, VBuiltinMethod(o, name)
            return
        if isinstance(o, VEnum):
            raise Unsupported("enum attribute " + name, node)
        if o is VNone or isinstance(o, VBool):
            yield st, Exc(["AttributeError"], getattr(node, "lineno", None), name)
            return
        if isinstance(o, VExcObj):
            yield st, VOpaque("exception attribute")
            return
        raise Unsupported("attribute %s of %s" % (name, type(o).__name__), node)

    def enum_alias(self, c, name):
        def val(n):
            try:
                return ast.literal_eval(c.attrs[n])
            except Exception:
                raise Unsupported("enum member value " + n)
        for k in c.attrs:
            if val(k) == val(name) and type(val(k)) == type(val(name)):
                return k
        return name

    def class_attr(self, c, name, st):
        s = st.copy()
        s.env = {"__module__": c.module, "__cls__": c.name}
        for k, n in c.attrs.items():
            if k == name:
                break
        # names of the class body itself
        s.env = dict(s.env)
        for k, n in c.attrs.items():
            if k == name:
                break
            if isinstance(n, ast.Constant):
                for _, v in self.ev(n, s):
                    s.env[k] = v
        if name in self.w.class_stores:
            raise Unsupported("class attribute %s is rebound" % name)
        for s1, v in self.ev(c.attrs[name], s):
            self.immutable(v, s1, name, None)
            yield s1.with_env(st.env), v

    def dyn_cls(self, v, st):
        if isinstance(v, VClass):
            return v.name
        return st.heap[v.loc].cls

    def ex_Lambda(self, e, st):
        f = VFunc(e, st.env["__module__"], st.env.get("__cls__"), "<lambda>", closure=st.env)
        yield st, f

    def ex_ListComp(self, e, st):
        yield from self.bm.comprehension(e, st, "list")

    def ex_SetComp(self, e, st):
        raise Unsupported("set comprehension", e)

    def ex_GeneratorExp(self, e, st):
        # evaluated lazily: only consumed by the builtins that know how
        yield st, VCtx("genexp", (e, st.env))

    def ex_DictComp(self, e, st):
        yield from self.bm.dict_comprehension(e, st)

    def ex_Starred(self, e, st):
        raise Unsupported("starred expression", e)

    # ------------------------------------------------------------ calls
    def ex_Call(self, e, st):
        # super() needs lexical context
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            yield st, VSuper(st.env["__cls__"], st.env["__self__"])
            return
        if isinstance(e.func, ast.Attribute) and e.func.attr == "format":
            # message text is not modelled
            yield st, VStr(None)
            return
        for s1, f in self.ev(e.func, st):
            if isinstance(f, Exc):
                yield s1, f
                continue
            for s2, args in self.ev_list(e.args, s1):
                if isinstance(args, Exc):
                    yield s2, args
                    continue
                if any(k.arg is None for k in e.keywords):
                    raise Unsupported("** call", e)
                for s3, kv in self.ev_list([k.value for k in e.keywords], s2):
                    if isinstance(kv, Exc):
                        yield s3, kv
                        continue
                    kw = {k.arg: v for k, v in zip(e.keywords, kv)}
                    yield from self.call(f, args, kw, s3, e)

    def call(self, f, args, kw, st, node):
        if isinstance(f, VBound):
            yield from self.call_func(f.func, [f.recv] + args, kw, st, node)
        elif isinstance(f, VFunc):
            yield from self.call_func(f, args, kw, st, node)
        elif isinstance(f, VClass):
            yield from self.instantiate(f.name, args, kw, st, node)
        elif isinstance(f, VExt):
            yield from self.bm.call_ext(f, args, kw, st, node)
        elif isinstance(f, VBuiltinMethod):
            yield from self.bm.call_method(f.recv, f.name, args, kw, st, node)
        elif isinstance(f, VCtx) and f.kind == "hashfn":
            yield from self.bm.x.call_hashfn(f.data, args, kw, st, node)
        elif isinstance(f, VSuper):
            raise Unsupported("call of super object", node)
        elif isinstance(f, VUnion):
            for s1, x in self.union_cases(f, st):
                yield from self.call(x, args, kw, s1, node)
        elif f is VNone or isinstance(f, (VInt, VBytes, VBool, VStr, VTuple)):
            yield st, Exc(["TypeError"], getattr(node, "lineno", None), "not callable")
        else:
            raise Unsupported("call of " + type(f).__name__, node)

    def instantiate(self, cname, args, kw, st, node):
        if any(self.w.exc_is(cname, "BaseException") for _ in [0]) and cname in self.w.classes:
            yield st, VExcObj([cname])
            return
        f, c = self.w.find_method(cname, "__init__")
        if "__new__" in [m for k in self.w.mro(cname) if k in self.w.classes for m in self.w.classes[k].methods]:
            raise Unsupported("__new__", node)
        s0 = st.copy()
        ref = self.alloc(s0, Inst(cname, {}))
        if f is None:
            yield s0, ref
            return
        for s1, r in self.call_func(f, [ref] + args, kw, s0, node):
            yield s1, (r if isinstance(r, Exc) else ref)

    def bind(self, f, args, kw, st, node):
        """Bind arguments: yields (state, dict name->V) or (state, Exc)."""
        a = f.node.args
        if a.vararg or a.kwarg or a.posonlyargs:
            if a.vararg or a.kwarg:
                raise Unsupported("variadic function", node)
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if any(isinstance(v, VIter) and v.once or isinstance(v, VCtx) and v.kind == "genexp"
               for v in list(args) + list(kw.values())):
            raise Unsupported("an iterator is passed to a function", node)
        if len(args) > len(names):
            yield st, Exc(["TypeError"], getattr(node, "lineno", None), "arguments")
            return
        for n, v in zip(names, args):
            out[n] = v
        for k, v in kw.items():
            if k in out or k not in names + [x.arg for x in a.kwonlyargs]:
                yield st, Exc(["TypeError"], getattr(node, "lineno", None), "argument " + k)
                return
            out[k] = v
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        todo = []
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                if n not in defaults:
                    yield st, Exc(["TypeError"], getattr(node, "lineno", None), "missing " + n)
                    return
                d = defaults[n]
                # a default is evaluated once, at definition: the object is shared by all calls
                if not isinstance(d, ast.Constant):
                    if isinstance(d, (ast.Dict, ast.List, ast.Call, ast.Set)):
                        todo.append((n, "shared", d))
                        continue
                todo.append((n, "eval", d))

        def rec(s, i):
            if i == len(todo):
                yield s, out
                return
            n, how, d = todo[i]
            if how == "shared":
                out[n] = self.shared_default(f, n, d, s)
                yield from rec(s, i + 1)
                return
            s1 = s.copy()
            s1.env = {"__module__": f.module, "__cls__": f.cls}
            for s2, v in self.ev(d, s1):
                out[n] = v
                yield from rec(s2.with_env(s.env), i + 1)
        yield from rec(st, 0)

    def shared_default(self, f, n, d, st):
        """A mutable default argument: one object shared by every call (arbitrary content)."""
        if isinstance(d, ast.Dict) and not d.keys:
            key = ("shared", f.qual, n)
            cs = self.spec.shared_defaults.get((f.qual, n)) if hasattr(self.spec, "shared_defaults") else None
            ty = parse_ty(cs or "dict[bytes,bytes]")
            loc = self.shared_locs.setdefault(key, None) if hasattr(self, "shared_locs") else None
            if loc is None:
                for s1, v in self.fresh(st, ty, "shared_" + n):
                    self.shared_locs[key] = v.loc
                    return v
            if loc not in st.heap:
                t = self.decl(st, "shared_" + n, self.sort(ty))
                st.heap[loc] = SDict(t, ty.args[0], ty.args[1])
            return VRef(loc)
        raise Unsupported("mutable default argument", d)

    def contracts_for(self, f):
        if f.qual is None or f.closure is not None:
            return []
        return [c for c in self.spec.contracts.get(f.qual, []) if not any(t.kind == "FileSystem" for t in c.params.values())]

    def call_func(self, f, args, kw, st, node):
        if getattr(f.node, "pyv_unsupported", None):
            raise Unsupported(f.node.pyv_unsupported, node)
        if f.cls is not None and f.is_static is False and args and isinstance(args[0], VUnion):
            pass
        for s1, b in self.bind(f, args, kw, st, node):
            if isinstance(b, Exc):
                yield s1, b
                continue
            b = dict(b)
            cs = self.contracts_for(f)
            if cs and not self.inline_now(f):
                # a contract without some parameter speaks about calls that leave it at its default
                cs = [c for c in cs if all(n in c.params or self.is_default(f, n, v) for n, v in b.items())]
                if not cs:
                    yield from self.call_inline(f, b, s1, node)
                    continue
                yield from self.call_with_contract(cs, f, b, s1, node)
            else:
                yield from self.call_inline(f, b, s1, node)

    def is_default(self, f, n, v):
        """The argument is (syntactically) the constant default of the parameter."""
        d = self.default_of(f, n)
        if not isinstance(d, ast.Constant):
            return False
        if d.value is None:
            return v is VNone
        if d.value is Ellipsis:
            return v is VEll
        if isinstance(d.value, bool):
            return isinstance(v, VBool) and v.c is not None and v.c == d.value
        if isinstance(d.value, int):
            return isinstance(v, VInt) and v.c == d.value
        if isinstance(d.value, str):
            return isinstance(v, VStr) and v.c == d.value
        if isinstance(d.value, bytes):
            return isinstance(v, VBytes) and v.c is not None and bytes(v.c) == d.value
        return False

    def inline_now(self, f):
        return f.qual in self.spec.inline

    def call_inline(self, f, b, st, node):
        if st.depth > 40 or (f.qual, id(f.node)) in getattr(self, "inline_stack", ()):
            if (f.qual, id(f.node)) in self.inline_stack:
                raise Unsupported("recursive function %s has no contract" % f.qual, node)
            raise Unsupported("inlining too deep", node)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(f.node)):
            raise Unsupported("generator function " + str(f.qual), node)
        env = {"__module__": f.module, "__cls__": f.cls}
        if f.closure is not None and f.closure is not True:
            env = dict(f.closure)
        env.update(b)
        ps = f.node.args.posonlyargs + f.node.args.args
        if ps and f.cls is not None:
            env["__self__"] = b.get(ps[0].arg)
        caller = st.env
        s0 = st.copy()
        s0.env = env
        s0.depth += 1
        if self.cur is not None and f.qual and f.qual != "<lambda>":
            self.cur.inlined.add(f.qual)
        stack = getattr(self, "inline_stack", ())
        if isinstance(f.node, ast.Lambda):
            for s1, v in self.ev(f.node.body, s0):
                s2 = s1.with_env(caller)
                s2.depth = st.depth
                yield s2, v
            return
        gen = self.exec_block(f.node.body, s0)
        while True:
            prev = getattr(self, "inline_stack", ())
            self.inline_stack = prev + ((f.qual, id(f.node)),)
            try:
                item = next(gen, None)
            finally:
                self.inline_stack = prev
            if item is None:
                break
            s1, k, p = item
            s2 = s1.with_env(caller)
            s2.depth = st.depth
            s2.handlers = st.handlers
            if k == "next":
                yield s2, VNone
            elif k == "return":
                yield s2, p
            elif k == "raise":
                yield s2, p
            else:
                raise Unsupported("control flow", node)

    # ------------------------------------------------------------ templates
    def tpl(self, text, names, pre, post, types=None):
        """Expand a contract template. names: param/result -> V."""
        def sub(m):
            nm, prime, attrs = m.group(1), m.group(2), m.group(3)
            if nm not in names:
                raise Unsupported("template name $%s in %r" % (nm, text))
            st = post if (prime or nm == "result" or nm == "loopv") else pre
            v = names[nm]
            ty = (types or {}).get(nm)
            for a in [x for x in attrs.split(".") if x]:
                if isinstance(v, VTuple) and a.isdigit():
                    ty = ty.args[int(a)] if ty is not None and ty.kind == "tuple" else None
                    v = v.items[int(a)]
                elif isinstance(v, VRef) and isinstance(st.heap[v.loc], Inst):
                    h = st.heap[v.loc]
                    if a not in h.fields:
                        raise Unsupported("field %s of %s is not set" % (a, h.cls))
                    cs = self.spec.classes.get(ty.kind) if ty is not None else None
                    if cs is None or (cs.cls or ty.kind) != h.cls:
                        cs = self.class_spec(h.cls)
                    ty = cs.fields.get(a) if cs else None
                    v = h.fields[a]
                else:
                    raise Unsupported("template attribute %s in %r" % (a, text))
            return self.paren2(self.render(v, st, ty))
        return TPL.sub(sub, text)

    def class_spec(self, cls):
        if cls in self.spec.classes:
            return self.spec.classes[cls]
        if cls in self.w.classes:
            for k in self.w.mro(cls):
                if k in self.spec.classes:
                    return self.spec.classes[k]
        return None

    def paren2(self, t):
        return t if re.fullmatch(r"[\w:<>]+", t) or (t[:1] == "(" and matching(t, 0) == len(t) - 1) \
            or re.fullmatch(r"\w+\(.*\)", t) and matching(t, t.index("(")) == len(t) - 1 else "(" + t + ")"

    def inv_terms(self, v, st, noinv=False):
        """Class invariants of an object value (and its object fields); noinv: not its own."""
        out = []
        if isinstance(v, VRef) and isinstance(st.heap.get(v.loc), Inst):
            h = st.heap[v.loc]
            cs = self.class_spec(h.cls)
            if cs is not None:
                for k, ty in cs.fields.items():
                    if k in h.fields:
                        out += self.inv_terms(h.fields[k], st)
                if cs.inv and not noinv:
                    out.append(("inv:" + h.cls, self.fill_fields(cs.inv, h, cs, st)))
        elif isinstance(v, VTuple):
            for x in v.items:
                out += self.inv_terms(x, st)
        return out

    def expand_union_args(self, b, params, st):
        """Split union-typed arguments whose parameter does not accept the union."""
        for n, ty in params.items():
            v = b.get(n)
            if isinstance(v, VUnion) and not self.conforms(v, ty, st) and not v.u.startswith("tupleof"):
                for s1, x in self.union_cases(v, st):
                    b2 = dict(b)
                    b2[n] = x
                    yield from self.expand_union_args(b2, params, s1)
                return
        yield st, b

    def call_with_contract(self, cs, f, b, st, node):
        for c in cs:
            if all(self.conforms(b[n], ty, st) for n, ty in c.params.items() if n in b):
                yield from self.apply_contract(c, f, b, st, node)
                return
        # try splitting unions
        merged = {}
        for c in cs:
            for n, ty in c.params.items():
                merged.setdefault(n, ty)
        split = [(s1, b1) for s1, b1 in self.expand_union_args(b, cs[0].params, st)]
        if len(split) == 1 and split[0][1] == b:
            desc = {n: self.safe_type(v, st) for n, v in b.items()}
            if all(c.trusted is None for c in cs) and (f.qual, id(f.node)) not in getattr(self, "inline_stack", ()) \
                    and f.qual != self.cur_contract.qual:
                # no variant for these argument types: use the body itself
                yield from self.call_inline(f, b, st, node)
                return
            raise Unsupported("no contract variant of %s for %s" % (f.qual, desc), node)
        for s1, b1 in split:
            yield from self.call_with_contract(cs, f, b1, s1, node)

    def safe_type(self, v, st):
        try:
            if isinstance(v, VRef) and isinstance(st.heap[v.loc], Inst):
                return "%s(%s)" % (st.heap[v.loc].cls, ", ".join("%s: %s" % (k, self.safe_type(x, st)) for k, x in st.heap[v.loc].fields.items()))
            return repr(self.type_of(v, st))
        except Unsupported:
            return type(v).__name__

    def reach(self, v, st, acc):
        if isinstance(v, VRef):
            if v.loc in acc:
                return
            acc[v.loc] = None
            h = st.heap.get(v.loc)
            if isinstance(h, Inst):
                for x in h.fields.values():
                    self.reach(x, st, acc)
            elif isinstance(h, LList):
                for x in h.items:
                    self.reach(x, st, acc)
            elif isinstance(h, CDict):
                for a, x in h.items:
                    self.reach(x, st, acc)
        elif isinstance(v, VTuple):
            for x in v.items:
                self.reach(x, st, acc)

    def reach_without(self, v, st, acc, loc):
        """What can be reached without passing through the object at the location."""
        acc[loc] = True
        self.reach(v, st, acc)
        del acc[loc]

    def apply_contract(self, c, f, b, st, node):
        line = getattr(node, "lineno", None)
        if self.cur is not None:
            self.cur.callees.add(c.name)
        pre = st.copy()
        names = dict(b)
        types = dict(c.params)
        # aliasing between modified arguments and the others
        mods = set()
        for r in list(c.returns) + list(c.raises):
            mods.update(m.split(".")[0] for m in r.modifies)
        for m in mods:
            acc = {}
            self.reach(b.get(m, VNone), pre, acc)
            for n2, v2 in b.items():
                if n2 == m:
                    continue
                acc2 = {}
                self.reach(v2, pre, acc2)
                if set(acc) & set(acc2):
                    raise Unsupported("aliased arguments %s, %s in call of %s" % (m, n2, f.qual), node)
        for n, v in b.items():
            if n in types and self.is_new(types[n]):
                continue
            for lbl, t in self.inv_terms(v, pre, n in c.open):
                self.ob(pre, "call %s requires %s of %s" % (f.qual, lbl, n), t, node)
        for lbl, t in c.requires.items():
            self.ob(pre, "call %s requires %s" % (f.qual, lbl), self.tpl(t, names, pre, pre, types), node)
        if self.noread:
            acc = {}
            for v in b.values():
                self.reach(v, pre, acc)
            there = self.field_places(c.noreads, names, pre)
            for (loc, fld), path in self.noread.items():
                if loc in acc and (loc, fld) not in there:
                    self.ob(pre, "call %s does not depend on %s" % (f.qual, path), "false", node)
        if c.rec is not None and self.cur_contract is not None and c.rec == self.cur_contract.rec \
                and c.decreases is not None:
            callee = self.tpl(c.decreases, names, pre, pre, types)
            mine = self.entry_decreases
            self.ob(pre, "termination of the recursive call of %s" % f.qual,
                    "0 <= (%s) && (%s) < (%s)" % (callee, callee, mine), node)
        for r in c.returns:
            if any(p.startswith("result") for p in r.shares):
                raise Unsupported("call of %s" % f.qual, node)
            s = pre.copy()
            self.havoc(s, r.modifies, b, pre, types)
            if isinstance(r.alias, str):
                yield from self.finish_call(c, r, names, types, pre, s, b[r.alias])
                continue
            if r.alias:
                tys = [("any" if i in r.alias else t) for i, t in enumerate(r.ty.args)]

                def rec(s0, i, acc):
                    if i == len(tys):
                        yield s0, VTuple(acc)
                    elif i in r.alias:
                        yield from rec(s0, i + 1, acc + [b[r.alias[i]]])
                    else:
                        for s2, x in self.fresh(s0, r.ty.args[i], "%s_%d" % (f.qual.split(".")[-1], i)):
                            yield from rec(s2, i + 1, acc + [x])
                for s1, v in rec(s, 0, []):
                    yield from self.finish_call(c, r, names, types, pre, s1, v)
                continue
            if r.value is not None:
                fz = s.frozen
                v = self.wrap(self.tpl(r.value, names, pre, s, types), r.ty, s)
                s.frozen = fz       # a fresh object, not a copy of an element
                yield from self.finish_call(c, r, names, types, pre, s, v)
                continue
            for s1, v in self.fresh(s, r.ty, f.qual.split(".")[-1]):
                yield from self.finish_call(c, r, names, types, pre, s1, v)
        for r in c.raises:
            if not self.any_exc_relevant(pre, r.classes):
                # the caller's contract leaves this outcome unconstrained
                pass
            s = pre.copy()
            self.havoc(s, r.modifies, b, pre, types)
            for n, ty in types.items():
                if self.is_new(ty) and isinstance(b.get(n), VRef):
                    s.heap[b[n].loc] = Dead("its construction failed")
            dead = False
            for m in r.modifies:
                for lbl, t in self.inv_terms(names.get(m.split(".")[0], VNone), s, m.split(".")[0] in c.open):
                    s.fact(t)
            for lbl, t in r.ensures.items():
                tt = self.tpl(t, names, pre, s, types)
                if tt == "false":
                    dead = True
                if not self.assume(s, tt):
                    dead = True
            if c.determined:
                s.fact("!" + self.tpl(c.determined["normal"], names, pre, pre, types))
            if not dead:
                yield s, Exc(r.classes, line, "from " + f.qual)

    def field_places(self, paths, names, st):
        """(location, field) of each path such as self._storage."""
        out = {}
        for path in paths:
            *owner, fld = path.split(".")
            v = names[owner[0]]
            for a in owner[1:]:
                v = st.heap[v.loc].fields[a]
            out[(v.loc, fld)] = path
        return out

    def any_exc_relevant(self, st, classes):
        return True

    def finish_call(self, c, r, names, types, pre, s, v):
        n2 = dict(names)
        n2["result"] = v
        t2 = dict(types)
        t2["result"] = r.ty
        for m in r.modifies:
            for lbl, t in self.inv_terms(names.get(m.split(".")[0], VNone), s, m.split(".")[0] in c.open):
                s.fact(t)
        for lbl, t in r.ensures.items():
            tt = self.tpl(t, n2, pre, s, t2)
            if not self.assume(s, tt):
                return
        if c.determined:
            s.fact(self.tpl(c.determined["normal"], names, pre, pre, types))
            s.fact("%s == %s" % (self.tpl("$result", n2, pre, s, t2), self.tpl(c.determined["value"], names, pre, pre, types)))
        for h in r.hints:
            s.hint(self.tpl(h, n2, pre, s, t2))
        yield s, v

    def havoc(self, st, modifies, b, pre, types=None):
        for m in modifies:
            parts = m.split(".")
            v = b.get(parts[0])
            if v is None:
                continue
            if len(parts) == 1:
                if not isinstance(v, VRef):
                    continue
                ty = (types or {}).get(parts[0])
                self.havoc_loc(st, v.loc, parts[0], ty if ty is not None and ty.kind in ("list", "dict") else None)
                continue
            owner = v
            for p in parts[1:-1]:
                owner = st.heap[owner.loc].fields[p]
            h = st.heap[owner.loc]
            cs = self.class_spec(h.cls)
            fld = parts[-1]
            cur = h.fields.get(fld)
            rebind = cs is not None and fld in cs.rebind
            if isinstance(cur, VRef) and isinstance(st.heap[cur.loc], (LList, SList, SDict, CDict)) and not rebind:
                self.havoc_loc(st, cur.loc, fld, cs.fields.get(fld) if cs else None)
                continue
            ty = cs.fields[fld] if cs else self.type_of(cur, st)
            outs = list(self.fresh(st, ty, fld))
            if len(outs) != 1:
                raise Unsupported("havoc of union field " + fld)
            s1, nv = outs[0]
            self.write(st, owner.loc, st.heap[owner.loc].set(fld, nv))
            if cs:
                self.register_alias(st, owner.loc, cs)
            if rebind and isinstance(cur, VRef):
                # the object that was there (or a part of it) may have been changed, or be part of the new one
                acc = {cur.loc: None}
                if isinstance(pre.heap[cur.loc], Inst):
                    self.reach(cur, pre, acc := {})
                for loc in acc:
                    st.heap[loc] = Dead("replaced by a call")

    def havoc_loc(self, st, loc, hint, ty=None):
        h = st.heap[loc]
        if isinstance(h, SList):
            ty = Ty("list", h.ety)
        elif isinstance(h, SDict):
            ty = Ty("dict", h.kty, h.vty)
        elif ty is None and isinstance(h, LList):
            ty = self.type_of(VRef(loc), st)
        elif isinstance(h, Inst):
            cs = self.class_spec(h.cls)
            hh = h
            for k, t in cs.fields.items():
                outs = list(self.fresh(st, t, hint + "_" + k.strip("_")))
                hh = hh.set(k, outs[0][1])
            self.write(st, loc, hh)
            self.register_alias(st, loc, cs)
            return
        if ty is None or "unknown" in repr(ty):
            ty = getattr(self.spec, "default_havoc", {}).get(hint)
            if ty is None:
                raise Unsupported("havoc of a list with unknown element type")
            ty = parse_ty(ty)
        outs = list(self.fresh(st, ty, hint))
        self.write(st, loc, st.heap[outs[0][1].loc])

    # ------------------------------------------------------------ verification of one contract
    def entry_states(self, f, c):
        st = State()
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]

        def rec(s, todo, env):
            if not todo:
                yield s, env
                return
            n = todo[0]
            if n not in c.params:
                # a parameter the contract does not know: its default value
                d = self.default_of(f, n)
                if d is None:
                    raise Unsupported("parameter %s of %s has no type in the contract" % (n, f.qual))
                s1 = s.copy()
                s1.env = {"__module__": f.module, "__cls__": f.cls}
                for s2, v in self.ev(d, s1):
                    yield from rec(s2, todo[1:], {**env, n: v})
                return
            for s2, v in self.fresh(s, c.params[n], n, noinv=n in c.open):
                yield from rec(s2, todo[1:], {**env, n: v})
        for k, ty in c.params.items():
            if k not in names:
                if ty.kind != "FileSystem":
                    raise Unsupported("%s has no parameter %s" % (f.qual, k))
                names = names + [k]
        for s, env in rec(st, names, {}):
            yield s, env

    def implementations(self, f, c, st, env):
        """The functions a call can lead to: f, or what the class of the object has in its place."""
        yield f
        m = c.qual.rsplit(".", 1)[-1]
        ps = f.node.args.posonlyargs + f.node.args.args
        if f.cls is None or f.is_static or not ps or c.exact or m == "__init__":
            return
        v = env.get(ps[0].arg)
        cn = v.name if isinstance(v, VClass) else st.heap[v.loc].cls if isinstance(v, VRef) and isinstance(st.heap[v.loc], Inst) else None
        if cn in self.w.classes and cn != f.cls and f.cls in self.w.mro(cn):
            g, _ = self.w.find_method(cn, m)
            if g is not None and g.node is not f.node and not self.spec.contracts.get(g.qual):   # (else it has a contract of its own)
                yield g

    def default_of(self, f, n):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, dd in zip(a.kwonlyargs, a.kw_defaults):
            if dd is not None:
                d[x.arg] = dd
        return d.get(n)

    def verify(self, c):
        """Symbolically execute the function of contract c; returns FnVC."""
        vc = FnVC(c.name, c)
        f = self.w.functions.get(c.qual)
        self.cur, self.cur_contract = vc, c
        self.inline_stack = ()
        self.shared_locs = {}
        if f is None:
            vc.unsupported = ("function %s not found" % c.qual, None)
            return vc
        if self.w.unsound:
            vc.unsupported = ("outside the front end: " + "; ".join(self.w.unsound[:4]), None)
            return vc
        vc.lines = (f.node.lineno, f.node.end_lineno)
        vc.module = f.module
        try:
            if getattr(f.node, "pyv_unsupported", None):
                raise Unsupported(f.node.pyv_unsupported, f.node)
            for st, env in self.entry_states(f, c):
                for g in self.implementations(f, c, st, env):
                    if getattr(g.node, "pyv_unsupported", None):
                        raise Unsupported(g.node.pyv_unsupported, g.node)
                    self.run_entry(vc, g, c, st.copy(), env)
        except Unsupported as e:
            vc.unsupported = (str(e), e.line)
        except RecursionError:
            vc.unsupported = ("recursion limit of the front end", None)
        return vc

    def run_entry(self, vc, f, c, st, env):
        e = {"__module__": f.module, "__cls__": f.cls}
        e.update({k: v for k, v in env.items() if c.params.get(k) is None or c.params[k].kind != "FileSystem"})
        self.fs_loc = next((env[k].loc for k, ty in c.params.items() if ty.kind == "FileSystem"), None)
        ps = f.node.args.posonlyargs + f.node.args.args
        if ps and f.cls is not None and not f.is_static:
            e["__self__"] = env.get(ps[0].arg)
        st.env = e
        types = dict(c.params)
        names = {k: env[k] for k in env}
        # ghost constants
        for g, sort in c.ghost.items():
            t = self.decl(st, g, sort)
            names[g] = VUnion("ghost", t)
        for lbl, t in c.requires.items():
            st.fact(self.tpl(t, names, st, st, types))
        for h in c.entry:
            st.hint(self.tpl(h, names, st, st, types))
        self.entry = (names, types, st.copy())
        self.noread = self.field_places(c.noreads, names, st)
        self.entry_decreases = self.tpl(c.decreases, names, st, st, types) if c.decreases else None
        entry = st.copy()
        # environment names not in contract (defaults)
        n = 0
        for s, k, p in self.exec_block(f.node.body, st.copy()):
            n += 1
            if n > MAX_STATES:
                raise Unsupported("too many paths")
            self.finish(vc, c, names, types, entry, s, k, p, f)

    def finish(self, vc, c, names, types, entry, s, k, p, f):
        s = s.copy()
        if k == "next":
            k, p = "return", VNone
        if k == "return":
            if isinstance(p, VUnion) and not any(self.conforms(p, r.ty, s) for r in c.returns):
                for s1, x in self.union_cases(p, s):
                    self.finish(vc, c, names, types, entry, s1, "return", x, f)
                return
            if isinstance(p, VTuple) and not any(self.conforms(p, r.ty, s) for r in c.returns):
                # split union components
                for i, x in enumerate(p.items):
                    if isinstance(x, VUnion) and not x.u.startswith("tupleof"):
                        for s1, y in self.union_cases(x, s):
                            if isinstance(y, VUnion):
                                break
                            self.finish(vc, c, names, types, entry, s1, "return",
                                        VTuple(p.items[:i] + [y] + p.items[i + 1:]), f)
                        else:
                            return
            if isinstance(p, VRef) and isinstance(s.heap[p.loc], Inst) and not any(self.conforms(p, r.ty, s) for r in c.returns):
                # split union fields
                for k, x in s.heap[p.loc].fields.items():
                    if isinstance(x, VUnion) and not x.u.startswith("tupleof"):
                        cases = list(self.union_cases(x, s))
                        if not any(isinstance(y, VUnion) for _, y in cases):
                            for s1, y in cases:
                                s1.heap[p.loc] = s1.heap[p.loc].set(k, y)
                                self.finish(vc, c, names, types, entry, s1, "return", p, f)
                            return
            r = None
            for cand in c.returns:
                if self.conforms(p, cand.ty, s):
                    r = cand
                    break
            if r is None:
                self.ob(s, "returns a value of the declared type (got %s)" % self.safe_type(p, s), "false",
                        line=f.node.lineno)
                vc.paths.append((s.trace, "return"))
                return
            n2 = dict(names)
            n2["result"] = p
            t2 = dict(types)
            t2["result"] = r.ty
            for h in c.exit:
                s.hint(self.tpl(h, n2, entry, s, t2))
            for lbl, t in self.inv_terms(p, s):
                self.ob(s, "result " + lbl, t, line=f.node.lineno)
            if not self.alias_ok(p, r, names, entry, s):
                self.ob(s, "returns " + ("the object %s itself" % r.alias if isinstance(r.alias, str) else
                                         "a new object"), "false", line=f.node.lineno)
            for path, prm in r.shares.items():
                v = n2[path.split(".")[0]]
                for a in path.split(".")[1:]:
                    v = s.heap[v.loc].fields.get(a) if isinstance(v, VRef) and isinstance(s.heap[v.loc], Inst) else None
                w = names[prm.split(".")[0]]
                for a in prm.split(".")[1:]:
                    w = entry.heap[w.loc].fields[a]
                if not (isinstance(v, VRef) and isinstance(w, VRef) and v.loc == w.loc):
                    self.ob(s, "%s is the object %s itself" % (path, prm), "false", line=f.node.lineno)
            if r.value is not None:
                t = "%s =~~= %s" % (self.paren2(self.render(p, s, r.ty)), self.paren2(self.tpl(r.value, names, entry, s, types)))
                if r.ty.kind in ("int", "bool"):
                    t = t.replace("=~~=", "==", 1) if r.ty.kind == "int" else t.replace("=~~=", "<==>", 1)
                self.ob(s, "ensures result value", t, line=f.node.lineno)
            for lbl, t in r.ensures.items():
                self.ob(s, "ensures " + lbl, self.tpl(t, n2, entry, s, t2), line=f.node.lineno)
            self.frame(vc, c, names, entry, s, r.modifies, f)
            vc.paths.append((s.trace, "return"))
        elif k == "raise":
            ok = False
            left = set(p.classes)
            for r in c.raises:
                cov = set(x for x in left if any(
                    t == "*" or (x != "*" and (self.w.exc_is(x, t) or t == "Exception")) for t in r.classes))
                if not cov:
                    continue
                left -= cov
                s1 = s.copy()
                for lbl, t in r.ensures.items():
                    self.ob(s1, "raise (%s at line %s) only if %s" % ("/".join(sorted(cov)), p.line, lbl),
                            self.tpl(t, names, entry, s1, types), line=p.line)
                # an object whose construction failed is given up
                self.frame(vc, c, {n: v for n, v in names.items() if n not in types or not self.is_new(types[n])},
                           entry, s1, r.modifies, f)
                vc.paths.append((s1.trace, "raise"))
            if left:
                s1 = s.copy()
                self.ob(s1, "no exception (%s at line %s: %s)" % ("/".join(sorted(left)), p.line, p.why), "false",
                        line=p.line)
                vc.paths.append((s1.trace, "raise"))
        else:
            raise Unsupported("outcome " + k)

    def is_new(self, ty):
        return ty.kind == "new" or ty.kind == "alt" and all(self.is_new(a) for a in ty.args)

    def alias_ok(self, p, r, names, entry, s):
        """The result is exactly the parameter the contract names, or shares nothing with the caller."""
        if isinstance(r.alias, str):
            return isinstance(p, VRef) and isinstance(names[r.alias], VRef) and p.loc == names[r.alias].loc
        items = p.items if isinstance(p, VTuple) and isinstance(r.alias, dict) else [p]
        old = {}
        for v in names.values():
            self.reach(v, entry, old)
        for path, prm in r.shares.items():
            if path.startswith("result"):       # a part of the result that is an object of the caller
                w = names[prm.split(".")[0]]
                for a in prm.split(".")[1:]:
                    w = entry.heap[w.loc].fields[a]
                del old[w.loc]
        for i, x in enumerate(items):
            a = r.alias.get(i) if isinstance(r.alias, dict) else None
            if a is not None:
                if not (isinstance(x, VRef) and x.loc == names[a].loc):
                    return False
                continue
            acc = {}
            self.reach(x, s, acc)
            if set(acc) & set(old):
                return False
        return True

    def frame(self, vc, c, names, entry, s, modifies, f):
        """Everything reachable from the parameters and not in `modifies` is unchanged."""
        mods = set(modifies)
        new_objs = []

        def walk(v, path, seen):
            if isinstance(v, VTuple):
                for i, x in enumerate(v.items):
                    walk(x, path, seen)
                return
            if not isinstance(v, VRef) or v.loc in seen:
                return
            seen.add(v.loc)
            old, new = entry.heap.get(v.loc), s.heap.get(v.loc)
            if old is None:
                return
            why = s.frozen.get(v.loc)
            if isinstance(old, (SList, LList, SDict, CDict)) and isinstance(why, str) and v.loc not in entry.frozen:
                self.ob(s, "frame: %s is not shared (%s)" % (path, why), "false", line=f.node.lineno)
            if path in mods:
                if isinstance(old, Inst):
                    cs = self.class_spec(old.cls)
                    if cs is not None and new.cls != cs.cls and old.cls != new.cls:
                        self.ob(s, "frame: class of %s" % path, "false", line=f.node.lineno)
                    if cs is not None and not self.fields_conform(new, cs, s):
                        self.ob(s, "frame: %s keeps fields of the declared types (%s)" % (path, self.safe_type(v, s)),
                                "false", line=f.node.lineno)
                    for lbl, t in self.inv_terms(v, s, path in c.open):
                        self.ob(s, "%s on exit (%s)" % (lbl, path), t, line=f.node.lineno)
                return
            if isinstance(old, Inst):
                changed_inv = False
                for k, ov in old.fields.items():
                    nv = new.fields.get(k)
                    p2 = path + "." + k
                    if p2 in mods:
                        changed_inv = True
                        cs = self.class_spec(old.cls)
                        if nv is None or cs is None or k not in cs.fields or not self.conforms(nv, cs.fields[k], s):
                            self.ob(s, "frame: %s is of the declared type (%s)" % (p2, self.safe_type(nv, s)), "false",
                                    line=f.node.lineno)
                            continue
                        if isinstance(ov, VRef) and not isinstance(entry.heap[ov.loc], Inst) \
                                and not (isinstance(nv, VRef) and nv.loc == ov.loc) and k not in cs.rebind:
                            self.ob(s, "frame: %s is changed in place" % p2, "false", line=f.node.lineno)
                        if isinstance(nv, VRef) and not (isinstance(ov, VRef) and nv.loc == ov.loc):
                            new_objs.append((p2, nv, old.cls, k, ov))
                        continue
                    if nv is not ov:
                        same = isinstance(nv, VRef) and isinstance(ov, VRef) and nv.loc == ov.loc
                        if not same:
                            try:
                                cs = self.class_spec(old.cls)
                                ty = cs.fields.get(k) if cs else None
                                a, b = self.render(ov, entry, ty), self.render(nv, s, ty)
                                changed_inv = True
                                if a != b:
                                    self.ob(s, "frame: %s unchanged" % p2, "%s =~~= %s" % (self.paren2(b), self.paren2(a)), line=f.node.lineno)
                            except Unsupported:
                                if type(ov) is type(nv) and isinstance(ov, (VFunc, VExt)):
                                    continue
                                self.ob(s, "frame: %s unchanged" % p2, "false", line=f.node.lineno)
                            continue
                    walk(ov, p2, seen)
                extra = [k for k in new.fields if k not in old.fields]
                if changed_inv:
                    cs = self.class_spec(old.cls)
                    if cs is not None and cs.inv and path not in c.open:
                        self.ob(s, "inv:%s on exit (%s)" % (old.cls, path), self.fill_fields(cs.inv, new, cs, s),
                                line=f.node.lineno)
                return
            if old is not new:
                ty = None
                if isinstance(old, SList):
                    ty = Ty("list", old.ety)
                elif isinstance(old, SDict):
                    ty = Ty("dict", old.kty, old.vty)
                try:
                    a, b = self.render(v, entry, ty), self.render(v, s, ty)
                except Unsupported:
                    self.ob(s, "frame: %s unchanged" % path, "false", line=f.node.lineno)
                    return
                if a != b:
                    self.ob(s, "frame: %s unchanged" % path, "%s =~~= %s" % (self.paren2(b), self.paren2(a)), line=f.node.lineno)
        seen = set()
        for n, v in names.items():
            walk(v, n, seen)
        # objects put into modified fields are new ones, and nothing else leads to them
        for p2, nv, cls, k, ov in new_objs:
            cs = self.class_spec(cls)
            ok = set()
            if k in cs.rebind and isinstance(ov, VRef) and isinstance(entry.heap[ov.loc], Inst):
                self.reach(ov, entry, ok0 := {})      # parts of the object replaced may be used again
                others = {}
                for n, v in names.items():
                    self.reach_without(v, entry, others, ov.loc)
                ok |= set(ok0) - set(others)
            for a, fs in cs.may_alias.items():
                if k in fs:
                    ok |= set(w.loc for w in [s.heap[names["self"].loc].fields.get(a)] if isinstance(w, VRef))
            mine = self.reach_set(nv, s) - ok
            if any(l in entry.heap for l in mine):
                self.ob(s, "frame: %s is a new object" % p2, "false", line=f.node.lineno)
            if any(isinstance(s.frozen.get(l), str) for l in mine if not isinstance(s.heap[l], Inst)) :
                self.ob(s, "frame: %s shares no object with others" % p2, "false", line=f.node.lineno)
