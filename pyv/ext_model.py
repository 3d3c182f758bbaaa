"""Trusted contracts of the external libraries (rlp, hash functions, ...)."""
import ast

from .crypto_model import Crypto
from .values import *


class Ext(Crypto):
    def __init__(self, eng, bm):
        self.e, self.b = eng, bm
        self.methods = {}

    def has_attr(self, h, n):
        raise Unsupported("hasattr of " + h.cls)

    # ------------------------------------------------------------ attribute access
    def ext_attr(self, o, name, st, node):
        full = o.name + "." + name
        if o.name == "hashlib" and name in self.ALGS:
            yield st, VCtx("hashfn", VStr(c=name))
            return
        yield st, VExt(full, o.data)

    ALGS = ("sha256", "md5", "sha224", "sha384", "sha512", "sha3_256", "sha3_224", "sha3_384", "sha3_512")

    def getattr_sym(self, o, n, st, node):
        if o.name == "hashlib" and isinstance(n, VStr) and n.t is not None:
            for s1, ex in self.e.guard(st, "known_alg(%s)" % n.t, "AttributeError", node, "hashlib attribute"):
                yield s1, (ex if ex is not None else VCtx("hashfn", n))
            return
        raise Unsupported("getattr of symbolic name", node)

    # ------------------------------------------------------------ hash objects
    def hashable(self, v):
        """bytes a hash function accepts; None: it raises TypeError"""
        return v if isinstance(v, VBytes) and v.kind in ("bytes", "bytearray", "byteslike") else None

    def not_hashable(self, v, st):
        if isinstance(v, (VInt, VStr, VBool, VTuple)) or v is VNone or isinstance(v, VUnion) and v.u.startswith("tupleof"):
            return True
        return isinstance(v, VRef) and isinstance(st.heap[v.loc], (LList, SList, CDict, SDict))

    def new_hash(self, alg, data, st, node):
        if data is None:
            data = VBytes(None, "bytes", c=b"")
        if isinstance(data, VUnion) and not data.u.startswith("tupleof"):
            for s1, x in self.e.union_cases(data, st):
                yield from self.new_hash(alg, x, s1, node)
            return
        if self.hashable(data) is None:
            if not self.not_hashable(data, st):
                raise Unsupported("hash of " + type(data).__name__, node)
            yield st, Exc(["TypeError"], getattr(node, "lineno", None), "hash of " + type(data).__name__)
            return
        s = st.copy()
        yield s, self.e.alloc(s, Inst("ext:hash", {"_alg": alg, "_data": VBytes(data.t, "bytes", c=data.c)}))

    def call_hashfn(self, alg, args, kw, st, node):
        if len(args) > 1 or set(kw) - {"data", "string"} or args and kw:
            raise Unsupported("hash function options", node)
        yield from self.new_hash(alg, args[0] if args else next(iter(kw.values()), None), st, node)

    def crypto_hash(self, name, args, kw, st, node):
        if len(args) > 1 or set(kw) - {"data"} or args and kw:
            raise Unsupported("hash options", node)
        d = args[0] if args else kw.get("data", VNone)
        # pycryptodome: `if data: self.update(data)`, so an empty value of any type is accepted
        if isinstance(d, VUnion) and not d.u.startswith("tupleof"):
            for s1, x in self.e.union_cases(d, st):
                yield from self.crypto_hash(name, [x], {}, s1, node)
            return
        if self.hashable(d) is not None:
            yield from self.new_hash(VStr(c=name), d, st, node)
            return
        for s1, b in self.b.truth(d, st, node):
            for s2, t in self.e.fork(s1, b):
                if t:
                    yield from self.new_hash(VStr(c=name), d, s2, node)
                else:
                    yield from self.new_hash(VStr(c=name), None, s2, node)

    def f_Crypto_Hash_SHA256_new(self, args, kw, st, node):
        yield from self.crypto_hash("sha256", args, kw, st, node)

    def f_Crypto_Hash_SHA512_new(self, args, kw, st, node):
        # the first positional parameter of SHA512.new is data, the second truncate
        yield from self.crypto_hash("sha512", args, kw, st, node)

    def iterate(self, v, h, st, node):
        if h.cls == "ext:dictiter":
            yield from self.b.iterate(h.fields["d"], st, node)
            return
        raise Unsupported("iteration over " + h.cls, node)

    def ext_getitem(self, o, h, i, st, node):
        raise Unsupported("subscript of " + h.cls, node)

    def ext_obj_attr(self, o, h, name, st, node):
        k = h.cls[4:]
        if name in h.fields and not name.startswith("_"):
            yield st, h.fields[name]
            return
        yield st, VExt("obj:%s.%s" % (k, name), o)

    # ------------------------------------------------------------ datetime
    def f_datetime_datetime_now(self, args, kw, st, node):
        if args or kw:
            raise Unsupported("datetime.now options", node)
        s = st.copy()
        yield s, self.e.alloc(s, Inst("ext:datetime", {}))

    def str_of(self, v, st, node):
        if isinstance(v, VRef) and isinstance(st.heap[v.loc], Inst) and st.heap[v.loc].cls == "ext:datetime":
            self.e.assumptions.add("str(datetime.now()) is ASCII text")
            s = st.copy()
            t = self.e.decl(s, "now", "Seq<int>")
            s.fact("is_ascii(%s)" % t)
            yield s, VStr(t, ascii=True)
            return
        if isinstance(v, VRef) and isinstance(st.heap[v.loc], CDict):
            t = self.py_value(v, st, node)
            self.e.assumptions.add("str() of a dictionary with plain keys and bytes or tuples of bytes is ASCII text that tells it apart")
            s = st.copy()
            r = self.e.let(s, "text", "Seq<int>", "py_str(%s)" % t)
            s.fact("is_ascii(%s)" % r)
            yield s, VStr(r, ascii=True)
            return
        raise Unsupported("str() of " + type(v).__name__, node)

    def py_value(self, v, st, node):
        """The value as one whose text is known to tell it apart."""
        if isinstance(v, VBytes) and v.kind == "bytes":
            return "PyVal::B(%s)" % v.t
        if isinstance(v, VUnion) and v.u == "tupleof[entry]":
            return "py_entries(%s)" % v.t
        if isinstance(v, VUnion) and v.u == "tupleof[bytes]":
            return "py_list(%s)" % v.t
        if isinstance(v, VRef) and isinstance(st.heap[v.loc], CDict):
            t = "PyVal::E"
            for k, x in reversed(st.heap[v.loc].items):
                if not (isinstance(k, VStr) and k.c is not None and k.c.isascii()):
                    break
                t = "PyVal::D(%s, Box::new(%s), Box::new(%s))" % (k.t, self.py_value(x, st, node), t)
            else:
                return t
        raise Unsupported("str() of a dictionary of other values", node)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, st, node):
        name = f.name
        if name.startswith("obj:"):
            m = getattr(self, "o_" + name[4:].replace(".", "_"), None)
            if m is None:
                raise Unsupported("method " + name[4:], node)
            yield from m(f.data, args, kw, st, node)
            return
        m = getattr(self, "f_" + name.replace(".", "_"), None)
        if m is None:
            raise Unsupported("external function " + name, node)
        yield from m(args, kw, st, node)

    # ------------------------------------------------------------ rlp
    def to_item(self, v, st):
        """Item term for a value rlp.encode accepts; None if it raises."""
        if isinstance(v, VBytes):
            if v.kind == "byteseq":
                raise Unsupported("rlp of a byte sequence of unknown kind")
            return "Item::S(%s)" % v.t
        if isinstance(v, VUnion):
            if v.u == "item":
                return v.t
            if v.u in ("tupleof[bytes]", "tupleof[bytearray]"):
                return "Item::L(items_of(%s))" % v.t
            if v.u == "tupleof[item]":
                return "Item::L(%s)" % v.t
            if v.u == "tupleof[entry]":
                return "Item::L(eitems(%s))" % v.t
            r = self.to_item_union(v, st)
            if r is not None:
                return r
            raise Unsupported("rlp of union " + v.u)
        if isinstance(v, VBool):
            return "Item::S(if %s { seq![1int] } else { Seq::<int>::empty() })" % v.t
        if isinstance(v, VInt):
            return "Item::S(be(%s))" % v.t
        if isinstance(v, VTuple):
            parts = [self.to_item(x, st) for x in v.items]
            if any(p is None for p in parts):
                return None
            return "Item::L(%s)" % (("seq![%s]" % ", ".join(parts)) if parts else "Seq::<Item>::empty()")
        if isinstance(v, VRef):
            h = st.heap[v.loc]
            if isinstance(h, LList):
                return self.to_item(VTuple(h.items), st)
            if isinstance(h, SList):
                if h.ety.kind == "item":
                    return "Item::L(%s)" % h.term
                if h.ety.kind in ("bytes", "bytearray", "byteslike"):
                    return "Item::L(items_of(%s))" % h.term
                raise Unsupported("rlp of a list of %r" % h.ety)
        return None

    def to_item_union(self, v, st):
        return None

    def f_rlp_encode(self, args, kw, st, node):
        if kw or len(args) != 1:
            raise Unsupported("rlp.encode options", node)
        v = args[0]
        if isinstance(v, VUnion) and v.u.startswith("opt:"):
            for s1, x in self.e.union_cases(v, st):
                yield from self.f_rlp_encode([x], kw, s1, node)
            return
        # options inside a list: split
        items = v.items if isinstance(v, VTuple) else (
            st.heap[v.loc].items if isinstance(v, VRef) and isinstance(st.heap[v.loc], LList) else [])
        for i, x in enumerate(items):
            if isinstance(x, VUnion) and x.u.startswith("opt:"):
                for s1, y in self.e.union_cases(x, st):
                    yield from self.f_rlp_encode([VTuple(list(items[:i]) + [y] + list(items[i + 1:]))], kw, s1, node)
                return
        def neg_int(v, st):
            if isinstance(v, VInt) and not isinstance(v, VBool):
                return [v]
            if isinstance(v, VTuple):
                return [y for x in v.items for y in neg_int(x, st)]
            if isinstance(v, VRef) and isinstance(st.heap[v.loc], LList):
                return [y for x in st.heap[v.loc].items for y in neg_int(x, st)]
            return []
        t = self.to_item(v, st)
        if t is None:
            for s1, ex in self.e.guard(st, "false", "EncodingError", node, "rlp.encode"):
                if ex is not None:
                    yield s1, ex
            return
        ints = neg_int(v, st)
        outs = [st]
        for x in ints:
            nxt = []
            for s in outs:
                for s1, ex in self.e.guard(s, "0 <= %s" % x.t, "SerializationError", node, "rlp.encode of an integer"):
                    if ex is not None:
                        yield s1, ex
                    else:
                        nxt.append(s1)
            outs = nxt
        for s in outs:
            s2 = s.copy()
            tt = "rlp(%s)" % t
            s2.fact("is_bytes(%s)" % tt)
            yield s2, VBytes(tt, "bytes")

    def f_rlp_decode(self, args, kw, st, node):
        v = args[0]
        sedes = kw.get("sedes", args[1] if len(args) > 1 else None)
        if set(kw) - {"sedes"}:
            raise Unsupported("rlp.decode options", node)
        if isinstance(v, VUnion):
            for s1, x in self.e.union_cases(v, st):
                yield from self.f_rlp_decode([x] + args[1:], kw, s1, node)
            return
        if not isinstance(v, VBytes):
            for s1, ex in self.e.guard(st, "false", "DecodingError", node, "rlp.decode"):
                if ex is not None:
                    yield s1, ex
            return
        for s1, ex in self.e.guard(st, "rlp_ok(%s)" % v.t, "DecodingError", node, "rlp.decode"):
            if ex is not None:
                yield s1, ex
                continue
            s2 = s1.copy()
            t = "unrlp(%s)" % v.t
            s2.fact("item_ok(%s)" % t)
            if sedes is None or sedes is VNone:
                yield s2, VUnion("item", t)
            else:
                yield from self.apply_sedes(sedes, t, s2, node)

    # sedes objects --------------------------------------------------------
    def f_rlp_sedes_List(self, args, kw, st, node):
        v = args[0]
        items = v.items if isinstance(v, VTuple) else list(st.heap[v.loc].items)
        yield st, VCtx("sedes", ("List", items))

    def f_rlp_sedes_CountableList(self, args, kw, st, node):
        yield st, VCtx("sedes", ("CountableList", args[0]))

    def apply_sedes(self, sd, t, st, node):
        """Yields (state, V|Exc): deserialisation of item term t."""
        line = getattr(node, "lineno", None)

        def fail(s):
            return s, Exc(["DeserializationError"], line, "sedes")
        if isinstance(sd, VExt):
            k = sd.name.split(".")[-1]
            if k == "raw":
                yield st, VUnion("item", t)
                return
            for s1, ex in self.e.guard(st, "%s is S" % t, "DeserializationError", node, "sedes " + k):
                if ex is not None:
                    yield s1, ex
                    continue
                b = "(%s->S_0)" % t
                s1 = s1.copy()
                s1.fact("is_bytes(%s)" % b)
                if k == "binary":
                    yield s1, VBytes(b, "bytes")
                elif k == "boolean":
                    for s2, ex in self.e.guard(s1, "(%s =~= Seq::<int>::empty() || %s =~= seq![1int])" % (b, b),
                                               "DeserializationError", node, "sedes boolean"):
                        yield s2, (ex if ex is not None else VBool("(%s =~= seq![1int])" % b))
                elif k == "big_endian_int":
                    for s2, ex in self.e.guard(s1, "be_ok(%s)" % b, "DeserializationError", node, "sedes int"):
                        yield s2, (ex if ex is not None else VInt("unbe(%s)" % b))
                else:
                    raise Unsupported("sedes " + k, node)
            return
        kind, data = sd.data
        if kind == "List":
            ok = "(%s is L && (%s->L_0).len() == %d)" % (t, t, len(data))
            for s1, ex in self.e.guard(st, ok, "DeserializationError", node, "sedes List"):
                if ex is not None:
                    yield s1, ex
                    continue

                def rec(s, i, acc):
                    if i == len(data):
                        yield s, VTuple(acc)
                        return
                    ti = self.e.let(s, "elem", "Item", "(%s->L_0)[%d]" % (t, i))
                    s.fact("item_ok(%s)" % ti)
                    for s2, v in self.apply_sedes(data[i], ti, s, node):
                        if isinstance(v, Exc):
                            yield s2, v
                        else:
                            yield from rec(s2.copy(), i + 1, acc + [v])
                s1 = s1.copy()
                s1.fact("items_ok(%s->L_0)" % t)
                yield from rec(s1, 0, [])
        else:
            inner = data
            for s1, ex in self.e.guard(st, "%s is L" % t, "DeserializationError", node, "sedes CountableList"):
                if ex is not None:
                    yield s1, ex
                    continue
                s1 = s1.copy()
                s1.fact("items_ok(%s->L_0)" % t)
                k = inner.name.split(".")[-1] if isinstance(inner, VExt) else None
                if k == "raw":
                    yield s1, VUnion("tupleof[item]", "(%s->L_0)" % t)
                elif k == "binary":
                    for s2, ex in self.e.guard(s1, "all_strings(%s->L_0)" % t, "DeserializationError", node, "sedes binary"):
                        if ex is not None:
                            yield s2, ex
                            continue
                        s2 = s2.copy()
                        r = self.e.let(s2, "strings", "Seq<Seq<int>>", "strings_of(%s->L_0)" % t)
                        s2.fact("all_bytes(%s)" % r)
                        yield s2, VUnion("tupleof[bytes]", r)
                else:
                    raise Unsupported("sedes CountableList", node)

    # ------------------------------------------------------------ keccak
    def f_Crypto_Hash_keccak_new(self, args, kw, st, node):
        db = kw.get("digest_bits")
        nb = kw.get("digest_bytes")
        if args or set(kw) - {"digest_bits", "digest_bytes", "data", "update_after_digest"}:
            raise Unsupported("keccak options", node)
        if not ((db is not None and db.c == 256 and nb is None) or (nb is not None and nb.c == 32 and db is None)):
            raise Unsupported("keccak digest size", node)
        if kw.get("update_after_digest", VBool.const(False)).c is not False:
            raise Unsupported("keccak update_after_digest", node)
        yield from self.crypto_hash("keccak256", [kw["data"]] if "data" in kw else [], {}, st, node)

    def o_hash_update(self, o, args, kw, st, node):
        h = st.heap[o.loc]
        if len(args) != 1 or kw:
            raise Unsupported("hash update options", node)
        if isinstance(args[0], VUnion) and not args[0].u.startswith("tupleof"):
            for s1, x in self.e.union_cases(args[0], st):
                yield from self.o_hash_update(o, [x], kw, s1, node)
            return
        if self.hashable(args[0]) is None:
            if not self.not_hashable(args[0], st):
                raise Unsupported("hash update of " + type(args[0]).__name__, node)
            yield st, Exc(["TypeError"], getattr(node, "lineno", None), "hash update")
            return
        if "_done" in h.fields:
            # keccak objects refuse further data after digest()
            yield st, Exc(["TypeError"], getattr(node, "lineno", None), "hash update after digest")
            return
        old = h.fields["_data"]
        outs = [(st, args[0])] if old.c == b"" else self.b.binop(ast.Add(), old, args[0], st, node)
        for s1, v in outs:
            s2 = s1.copy()
            self.e.write(s2, o.loc, h.set("_data", VBytes(v.t, "bytes", c=v.c)), node)
            yield s2, o

    def hash_term(self, h, s):
        alg = h.fields["_alg"]
        t = h.fields["_data"].t
        if alg.c == "keccak256":
            s.fact("U(%s)" % t)
            r = "keccak(%s)" % t
            s.fact("%s.len() == 32" % r)
        elif alg.c is None or alg.c in self.ALGS:
            s.fact("HU(%s, %s)" % (alg.t, t))
            r = "hf(%s, %s)" % (alg.t, t)
        else:
            raise Unsupported("hash algorithm " + alg.c)
        s.fact("is_bytes(%s)" % r)
        return r

    def o_hash_digest(self, o, args, kw, st, node):
        if args or kw:
            raise Unsupported("digest options", node)
        s = st.copy()
        t = self.hash_term(st.heap[o.loc], s)
        self.done(o, s, node)
        yield s, VBytes(t, "bytes")

    def o_hash_hexdigest(self, o, args, kw, st, node):
        if args or kw:
            raise Unsupported("digest options", node)
        s = st.copy()
        t = self.hash_term(st.heap[o.loc], s)
        self.done(o, s, node)
        yield s, VStr("hexs(%s)" % t, ascii=True)

    def done(self, o, s, node):
        h = s.heap[o.loc]
        if h.fields["_alg"].c == "keccak256" and "_done" not in h.fields:
            self.e.write(s, o.loc, h.set("_done", VBool.const(True)), node)

    def fromhex(self, v, kind, st, node):
        if isinstance(v, VUnion) and not v.u.startswith("tupleof"):
            for s1, x in self.e.union_cases(v, st):
                yield from self.fromhex(x, kind, s1, node)
            return
        if self.not_hashable(v, st) and not isinstance(v, VStr):
            yield self.typeerr(st, node, "fromhex")
            return
        if not isinstance(v, VStr) or v.t is None:
            raise Unsupported("fromhex", node)
        if v.c is not None:
            try:
                yield st, VBytes(None, kind, c=bytes.fromhex(v.c))
            except ValueError:
                yield st, Exc(["ValueError"], getattr(node, "lineno", None), "fromhex")
            return
        m = re.fullmatch(r"hexs\((.*)\)", v.t)
        if m and ("is_bytes(%s)" % m.group(1)) in st.facts:
            yield st, VBytes(m.group(1), kind)
            return
        for s1, ex in self.e.guard(st, "hex_ok(%s)" % v.t, "ValueError", node, "fromhex"):
            if ex is not None:
                yield s1, ex
            else:
                s2 = s1.copy()
                s2.fact("is_bytes(unhex(%s))" % v.t)
                yield s2, VBytes("unhex(%s)" % v.t, kind)
