"""Trusted contracts of pycryptodome (RSA, PKCS#1, AES-EAX), json and files."""
from .values import *

BYTES = ("bytes", "bytearray", "byteslike")


def one(args, kw, names, node, what, optional=()):
    """Positional and keyword arguments of an external function by name."""
    if len(args) > len(names):
        raise Unsupported(what + " options", node)
    out = dict(zip(names, args))
    for k, v in kw.items():
        if k not in names or k in out:
            raise Unsupported(what + " option " + k, node)
        out[k] = v
    for n in names:
        if n not in out and n not in optional:
            raise Unsupported(what + " without " + n, node)
    return out


class Crypto:
    def cases(self, v, st):
        if isinstance(v, VUnion) and not v.u.startswith("tupleof"):
            yield from self.e.union_cases(v, st)
        else:
            yield st, v

    def ext_inst(self, v, st, *classes):
        h = st.heap.get(v.loc) if isinstance(v, VRef) else None
        return h if isinstance(h, Inst) and h.cls[4:] in classes and h.cls.startswith("ext:") else None

    def raises(self, classes, node, why):
        return Exc(classes, getattr(node, "lineno", None), why)

    def typeerr(self, st, node, why):
        return st, self.raises(["TypeError"], node, why)

    def fresh_bytes(self, s, hint, n=None):
        t = self.e.decl(s, hint, "Seq<int>")
        s.fact("is_bytes(%s)" % t)
        if n is not None:
            s.fact("%s.len() == %s" % (t, n))
        return VBytes(t, "bytes")

    # ------------------------------------------------------------ random bytes
    def f_Crypto_Random_get_random_bytes(self, args, kw, st, node):
        a = one(args, kw, ["n"], node, "random bytes")
        if not isinstance(a["n"], VInt):
            raise Unsupported("random bytes", node)
        s = st.copy()
        yield s, self.fresh_bytes(s, "random", a["n"].t)

    f_os_urandom = f_secrets_token_bytes = f_Crypto_Random_get_random_bytes

    def f_uuid_uuid4(self, args, kw, st, node):
        s = st.copy()
        t = self.e.decl(s, "uuid", "Seq<int>")
        s.fact("is_ascii(%s)" % t)
        yield s, self.e.alloc(s, Inst("ext:uuid", {"hex": VStr(t, ascii=True)}))

    # ------------------------------------------------------------ RSA keys
    def new_key(self, s, t):
        return self.e.alloc(s, Inst("ext:rsakey", {"_k": VInt(t)}))

    def f_Crypto_PublicKey_RSA_generate(self, args, kw, st, node):
        a = one(args, kw, ["bits"], node, "RSA.generate")
        if not isinstance(a["bits"], VInt):
            raise Unsupported("RSA.generate", node)
        for s1, ex in self.e.guard(st, "!(%s < 1024)" % a["bits"].t, "ValueError", node, "RSA.generate"):
            if ex is not None:
                yield s1, ex
                continue
            s = s1.copy()
            t = self.e.decl(s, "rsa", "int")
            s.fact("rsa_priv(%s)" % t)
            s.fact("rsa_signs(%s)" % t)
            s.fact("oaep_fits(rsa_pub(%s), 16)" % t)
            yield s, self.new_key(s, t)

    def passphrase(self, v, st, node):
        """Yields (state, term of the optional passphrase | Exc)."""
        if isinstance(v, VUnion) and v.u.startswith("opt:"):
            for s1, x in self.e.union_cases(v, st):
                yield from self.passphrase(x, s1, node)
            return
        if v is None or v is VNone:
            yield st, None
        elif isinstance(v, VBytes) and v.kind in BYTES:
            yield st, v.t
        elif isinstance(v, VStr) and v.t is not None:
            # text is encoded as Latin-1
            for s1, ex in self.e.guard(st, "is_bytes(%s)" % v.t, "UnicodeEncodeError", node, "passphrase"):
                yield s1, (ex if ex is not None else v.t)
        else:
            raise Unsupported("passphrase of " + type(v).__name__, node)

    def opt_term(self, t):
        return "None::<Seq<int>>" if t is None else "Some(%s)" % t

    def f_Crypto_PublicKey_RSA_import_key(self, args, kw, st, node):
        a = one(args, kw, ["extern_key", "passphrase"], node, "RSA.import_key", ("passphrase",))
        for s0, d in self.cases(a["extern_key"], st):
            if not (isinstance(d, VBytes) and d.kind in BYTES):
                raise Unsupported("RSA.import_key of " + type(d).__name__, node)
            for s1, p in self.passphrase(a.get("passphrase"), s0, node):
                if isinstance(p, Exc):
                    yield s1, p
                    continue
                k = "%s, %s" % (d.t, self.opt_term(p))
                for s2, ex in self.e.guard(s1, "rsa_ok(%s)" % k, "ValueError", node, "RSA.import_key"):
                    if ex is not None:
                        yield s2, self.raises(["ValueError", "IndexError", "TypeError"], node, "RSA.import_key")
                    else:
                        s = s2.copy()
                        yield s, self.new_key(s, "rsa_key(%s)" % k)

    f_Crypto_PublicKey_RSA_importKey = f_Crypto_PublicKey_RSA_import_key

    def key_term(self, v, st, node):
        h = self.ext_inst(v, st, "rsakey")
        if h is None:
            raise Unsupported("an RSA key is needed", node)
        return h.fields["_k"].t

    def o_rsakey_publickey(self, o, args, kw, st, node):
        one(args, kw, [], node, "public_key")
        s = st.copy()
        yield s, self.new_key(s, "rsa_pub(%s)" % self.key_term(o, st, node))

    o_rsakey_public_key = o_rsakey_publickey

    def o_rsakey_has_private(self, o, args, kw, st, node):
        one(args, kw, [], node, "has_private")
        yield st, VBool("rsa_priv(%s)" % self.key_term(o, st, node))

    def o_rsakey_export_key(self, o, args, kw, st, node):
        a = one(args, kw, ["format", "passphrase"], node, "export_key", ("format", "passphrase"))
        if "format" in a and a["format"].c != "PEM":
            raise Unsupported("export_key format", node)
        k = self.key_term(o, st, node)
        for s1, p in self.passphrase(a.get("passphrase"), st, node):
            if isinstance(p, Exc):
                yield s1, p
                continue
            if p is None:
                s = s1.copy()
                t = "rsa_pem(%s)" % k
                s.fact("is_bytes(%s)" % t)
                s.fact("is_ascii(%s)" % t)
                yield s, VBytes(t, "bytes")
                continue
            for s2, ex in self.e.guard(s1, "%s.len() != 0" % p, "ValueError", node, "export_key"):
                if ex is not None:
                    yield s2, ex
                    continue
                s = s2.copy()
                b = self.fresh_bytes(s, "exported")
                s.fact("is_ascii(%s)" % b.t)
                s.fact("rsa_priv(%s) ==> rsa_locked(%s, %s, %s)" % (k, b.t, k, p))
                yield s, b

    o_rsakey_exportKey = o_rsakey_export_key

    # ------------------------------------------------------------ PKCS#1 v1.5 signatures
    def f_Crypto_Signature_pkcs1_15_new(self, args, kw, st, node):
        a = one(args, kw, ["rsa_key"], node, "pkcs1_15.new")
        self.key_term(a["rsa_key"], st, node)
        s = st.copy()
        yield s, self.e.alloc(s, Inst("ext:pkcs1", {"_key": a["rsa_key"]}))

    def hash_obj(self, v, st, node):
        h = self.ext_inst(v, st, "hash")
        if h is None:
            raise Unsupported("a hash object is needed", node)
        return "%s, %s" % (h.fields["_alg"].t, h.fields["_data"].t)

    def o_pkcs1_sign(self, o, args, kw, st, node):
        a = one(args, kw, ["msg_hash"], node, "sign")
        k = self.key_term(st.heap[o.loc].fields["_key"], st, node)
        h = self.hash_obj(a["msg_hash"], st, node)
        for s1, ex in self.e.guard(st, "rsa_signs(%s)" % k, "ValueError", node, "sign"):
            if ex is not None:
                yield s1, self.raises(["ValueError", "TypeError"], node, "sign")
                continue
            s = s1.copy()
            t = "rsa_sig(%s, %s)" % (k, h)
            s.fact("is_bytes(%s)" % t)
            yield s, VBytes(t, "bytes")

    def o_pkcs1_verify(self, o, args, kw, st, node):
        a = one(args, kw, ["msg_hash", "signature"], node, "verify")
        k = self.key_term(st.heap[o.loc].fields["_key"], st, node)
        h = self.hash_obj(a["msg_hash"], st, node)
        if not (isinstance(a["signature"], VBytes) and a["signature"].kind in BYTES):
            raise Unsupported("signature of another type", node)
        for s1, ex in self.e.guard(st, "rsa_verifies(rsa_pub(%s), %s, %s)" % (k, h, a["signature"].t), "ValueError", node, "verify"):
            yield s1, (ex if ex is not None else VNone)

    # ------------------------------------------------------------ OAEP
    def f_Crypto_Cipher_PKCS1_OAEP_new(self, args, kw, st, node):
        a = one(args, kw, ["key"], node, "PKCS1_OAEP.new")
        self.key_term(a["key"], st, node)
        s = st.copy()
        yield s, self.e.alloc(s, Inst("ext:oaep", {"_key": a["key"]}))

    def o_oaep_encrypt(self, o, args, kw, st, node):
        a = one(args, kw, ["message"], node, "OAEP encrypt")
        k = self.key_term(st.heap[o.loc].fields["_key"], st, node)
        m = a["message"]
        if not (isinstance(m, VBytes) and m.kind in BYTES):
            raise Unsupported("message of another type", node)
        for s1, ex in self.e.guard(st, "oaep_fits(%s, %s.len() as int)" % (k, m.t), "ValueError", node, "OAEP encrypt"):
            if ex is not None:
                yield s1, ex
                continue
            s = s1.copy()
            c = self.fresh_bytes(s, "oaep")
            s.fact("oaep_opens(%s, %s, %s)" % (k, c.t, m.t))
            yield s, c

    def o_oaep_decrypt(self, o, args, kw, st, node):
        a = one(args, kw, ["ciphertext"], node, "OAEP decrypt")
        k = self.key_term(st.heap[o.loc].fields["_key"], st, node)
        c = a["ciphertext"]
        if not (isinstance(c, VBytes) and c.kind in BYTES):
            raise Unsupported("ciphertext of another type", node)
        for s1, ex in self.e.guard(st, "(rsa_priv(%s) && oaep_ok(%s, %s))" % (k, k, c.t), "ValueError", node, "OAEP decrypt"):
            if ex is not None:
                yield s1, self.raises(["ValueError", "TypeError"], node, "OAEP decrypt")
                continue
            s = s1.copy()
            t = "oaep(%s, %s)" % (k, c.t)
            s.fact("is_bytes(%s)" % t)
            yield s, VBytes(t, "bytes")

    # ------------------------------------------------------------ AES in EAX mode
    def f_Crypto_Cipher_AES_new(self, args, kw, st, node):
        a = one(args, kw, ["key", "mode", "nonce"], node, "AES.new", ("nonce",))
        if not (isinstance(a["mode"], VExt) and a["mode"].name.endswith("AES.MODE_EAX")):
            raise Unsupported("AES mode", node)
        key = a["key"]
        if not (isinstance(key, VBytes) and key.kind in BYTES):
            raise Unsupported("AES key of another type", node)
        for s1, ex in self.e.guard(st, "aes_key(%s)" % key.t, "ValueError", node, "AES key"):
            if ex is not None:
                yield s1, ex
                continue
            if a.get("nonce", VNone) is VNone:
                s = s1.copy()
                yield s, self.cipher(s, key, self.fresh_bytes(s, "nonce", 16))
                continue
            n = a["nonce"]
            if not (isinstance(n, VBytes) and n.kind in BYTES):
                raise Unsupported("nonce of another type", node)
            for s2, ex in self.e.guard(s1, "%s.len() != 0" % n.t, "ValueError", node, "nonce"):
                s = s2.copy()
                yield s, (ex if ex is not None else self.cipher(s, key, n))

    def cipher(self, s, key, nonce):
        return self.e.alloc(s, Inst("ext:aes", {"_key": key, "nonce": VBytes(nonce.t, "bytes", c=nonce.c)}))

    def cipher_text(self, o, v, st, node, what):
        """The cipher object takes its input (once)."""
        h = st.heap[o.loc]
        if "_ct" in h.fields:
            raise Unsupported("cipher object used again", node)
        if not (isinstance(v, VBytes) and v.kind in BYTES):
            raise Unsupported("cipher input of another type", node)
        kn = "%s, %s" % (h.fields["_key"].t, h.fields["nonce"].t)
        s = st.copy()
        if what == "encrypt":
            t = "eax_enc(%s, %s)" % (kn, v.t)
            s.fact("%s.len() == %s.len()" % (t, v.t))
            ct = t
        else:
            t = "eax_dec(%s, %s)" % (kn, v.t)
            ct = v.t
        s.fact("is_bytes(%s)" % t)
        self.e.write(s, o.loc, h.set("_ct", VBytes(ct, "bytes")).set("_dir", VStr(c=what)), node)
        return s, VBytes(t, "bytes")

    def tag(self, o, s):
        h = s.heap[o.loc]
        t = "eax_tag(%s, %s, %s)" % (h.fields["_key"].t, h.fields["nonce"].t, h.fields["_ct"].t)
        s.fact("is_bytes(%s)" % t)
        s.fact("%s.len() == 16" % t)
        return t

    def o_aes_encrypt(self, o, args, kw, st, node):
        yield self.cipher_text(o, one(args, kw, ["plaintext"], node, "encrypt")["plaintext"], st, node, "encrypt")

    def o_aes_decrypt(self, o, args, kw, st, node):
        yield self.cipher_text(o, one(args, kw, ["ciphertext"], node, "decrypt")["ciphertext"], st, node, "decrypt")

    def o_aes_digest(self, o, args, kw, st, node):
        one(args, kw, [], node, "digest")
        h = st.heap[o.loc]
        if "_ct" not in h.fields or h.fields["_dir"].c != "encrypt":
            raise Unsupported("tag of a cipher object", node)
        s = st.copy()
        yield s, VBytes(self.tag(o, s), "bytes")

    def o_aes_encrypt_and_digest(self, o, args, kw, st, node):
        for s, c in self.o_aes_encrypt(o, args, kw, st, node):
            s = s.copy()
            yield s, VTuple([c, VBytes(self.tag(o, s), "bytes")])

    def o_aes_verify(self, o, args, kw, st, node):
        v = one(args, kw, ["received_mac_tag"], node, "verify")["received_mac_tag"]
        h = st.heap[o.loc]
        if "_ct" not in h.fields or h.fields["_dir"].c != "decrypt" or not (isinstance(v, VBytes) and v.kind in BYTES):
            raise Unsupported("check of a tag", node)
        s = st.copy()
        t = self.tag(o, s)
        for s1, ex in self.e.guard(s, "%s =~= %s" % (v.t, t), "ValueError", node, "tag"):
            yield s1, (ex if ex is not None else VNone)

    def o_aes_decrypt_and_verify(self, o, args, kw, st, node):
        a = one(args, kw, ["ciphertext", "received_mac_tag"], node, "decrypt_and_verify")
        for s, d in self.o_aes_decrypt(o, [a["ciphertext"]], {}, st, node):
            for s1, r in self.o_aes_verify(o, [a["received_mac_tag"]], {}, s, node):
                yield s1, (r if isinstance(r, Exc) else d)

    # ------------------------------------------------------------ JSON
    def to_json(self, v, st, node):
        """Term of the JSON value written for v; None: json.dumps raises TypeError."""
        if isinstance(v, VStr) and v.t is not None:
            return "Json::Str(%s)" % v.t
        if v is VNone:
            return "Json::Null"
        if isinstance(v, VInt) and not isinstance(v, VBool):
            return "Json::Num(%s)" % v.t
        if isinstance(v, VUnion) and v.u == "json":
            return v.t
        if isinstance(v, VUnion) and v.u in ("tupleof[entry]", "tupleof[bytes]"):
            return "?"
        items = None
        if isinstance(v, VTuple):
            items = v.items
        elif isinstance(v, VRef):
            h = st.heap[v.loc]
            if isinstance(h, LList):
                items = h.items
            elif isinstance(h, CDict):
                t = "Map::<Seq<int>, Json>::empty()"
                for k, x in h.items:
                    if not (isinstance(k, VStr) and k.c is not None):
                        raise Unsupported("JSON object with a computed key", node)
                    j = self.to_json(x, st, node)
                    if j is None:
                        return None
                    t += ".insert(%s, %s)" % (k.t, j)
                return "Json::Obj(%s)" % t
            elif isinstance(h, SList):
                if h.ety.kind in ("str", "astr"):
                    return "Json::List(jtexts(%s))" % h.term
                if h.ety.kind == "json":
                    return "jlist(%s)" % h.term
                if h.ety.kind in BYTES:
                    raise Unsupported("JSON of byte strings", node)
        if isinstance(v, VBytes):
            return None
        if items is not None:
            ts = [self.to_json(x, st, node) for x in items]
            if any(t is None for t in ts):
                return None
            return "Json::List(%s)" % ("seq![%s]" % ", ".join(ts) if ts else "Seq::<Json>::empty()")
        raise Unsupported("JSON of " + type(v).__name__, node)

    def json_text(self, v, kw, st, node):
        for k, x in kw.items():
            if k not in ("indent", "sort_keys") or not (isinstance(x, (VInt, VBool)) and x.c is not None):
                raise Unsupported("json option " + k, node)
        j = self.to_json(v, st, node)
        if j is None:
            yield self.typeerr(st, node, "json.dumps")
            return
        if "?" in j:        # with tuples whose elements decide whether it can be written: anything may result
            yield self.typeerr(st, node, "json.dumps")
            s = st.copy()
            t = self.e.decl(s, "json", "Seq<int>")
            s.fact("is_ascii(%s)" % t)
            yield s, VStr(t, ascii=True)
            return
        s = st.copy()
        if kw:
            t = self.e.decl(s, "json", "Seq<int>")
            s.fact("json_of(%s, %s)" % (t, j))
        else:
            t = self.e.let(s, "json", "Seq<int>", "json(%s)" % j)
        s.hint("lemma_json(%s);" % j)
        s.fact("is_ascii(%s)" % t)
        yield s, VStr(t, ascii=True)

    def f_json_dumps(self, args, kw, st, node):
        if len(args) != 1:
            raise Unsupported("json.dumps", node)
        yield from self.json_text(args[0], kw, st, node)

    def f_json_loads(self, args, kw, st, node):
        a = one(args, kw, ["s"], node, "json.loads")
        for s0, v in self.cases(a["s"], st):
            if not (isinstance(v, VStr) and v.t is not None):
                if v is VNone or isinstance(v, (VInt, VBool)):
                    yield self.typeerr(s0, node, "json.loads")
                    continue
                raise Unsupported("json.loads of " + type(v).__name__, node)
            for s1, ex in self.e.guard(s0, "json_ok(%s)" % v.t, "JSONDecodeError", node, "json.loads"):
                yield s1, (ex if ex is not None else VUnion("json", "unjson(%s)" % v.t))

    def f_json_dump(self, args, kw, st, node):
        if len(args) != 2:
            raise Unsupported("json.dump", node)
        for s, t in self.json_text(args[0], kw, st, node):
            if isinstance(t, Exc):
                yield s, t
            else:
                for s1, r in self.o_file_write(args[1], [t], {}, s, node):
                    yield s1, (r if isinstance(r, Exc) else VNone)

    def f_json_load(self, args, kw, st, node):
        if len(args) != 1 or kw:
            raise Unsupported("json.load", node)
        for s, t in self.o_file_read(args[0], [], {}, st, node):
            if isinstance(t, Exc):
                yield s, t
            else:
                yield from self.f_json_loads([t], {}, s, node)

    # ------------------------------------------------------------ files
    def fs(self, st, node):
        loc = getattr(self.e, "fs_loc", None)
        if loc is None:
            raise Unsupported("files", node)
        return loc, st.heap[st.heap[loc].fields["_files"].loc]

    def f_os_path_isfile(self, args, kw, st, node):
        a = one(args, kw, ["path"], node, "isfile")
        if not (isinstance(a["path"], VStr) and a["path"].t is not None):
            raise Unsupported("isfile", node)
        yield st, VBool("%s.dom().contains(%s)" % (self.fs(st, node)[1].term, a["path"].t))

    def set_file(self, s, path, text, node):
        """The file now has that content (None: unknown); what other names lead to is unknown."""
        loc, h = self.fs(s, node)
        t = self.e.decl(s, "files", "Map<Seq<int>, Seq<int>>")
        s.fact("%s.dom().contains(%s)" % (t, path))
        if text is not None:
            s.fact("%s[%s] == %s" % (t, path, text))
        self.e.write(s, s.heap[loc].fields["_files"].loc, SDict(t, h.kty, h.vty), node)

    def open_(self, args, kw, st, node):
        a = one(args, kw, ["file", "mode", "encoding"], node, "open", ("mode", "encoding"))
        mode = a["mode"].c if "mode" in a else "r"
        enc = a["encoding"].c if "encoding" in a else "utf-8"
        if mode not in ("r", "w", "rt", "wt") or not isinstance(enc, str) or enc.lower() not in ("utf-8", "utf8", "ascii", "latin-1") \
                or not (isinstance(a["file"], VStr) and a["file"].t is not None):
            raise Unsupported("open", node)
        self.e.assumptions.add("files hold ASCII text unchanged; what was written is there when the file is closed")
        p = a["file"].t
        if self.e.exc_permitted(st, "OSError"):
            yield st.copy(), self.raises(["OSError"], node, "open")
        s = st.copy()
        _, h = self.fs(s, node)
        if mode[0] == "r":
            s.fact("%s.dom().contains(%s)" % (h.term, p))
            f = {"_mode": VStr(c="r"), "_path": a["file"], "_text": VStr("%s[%s]" % (h.term, p))}
        else:
            self.set_file(s, p, None, node)
            f = {"_mode": VStr(c="w"), "_path": a["file"], "_text": VStr(c="")}
        yield s, self.e.alloc(s, Inst("ext:file", f))

    def o_file_write(self, o, args, kw, st, node):
        h = self.ext_inst(o, st, "file")
        t = one(args, kw, ["s"], node, "write")["s"]
        if h is None or h.fields["_mode"].c != "w" or not isinstance(t, VStr) or t.t is None or not t.ascii or "_closed" in h.fields:
            raise Unsupported("write to a file", node)
        old = h.fields["_text"]
        s = st.copy()
        new = VStr(t.t if old.c == "" else "(%s + %s)" % (old.t, t.t), ascii=True)
        self.e.write(s, o.loc, h.set("_text", new), node)
        self.set_file(s, h.fields["_path"].t, None, node)
        yield s, VInt("%s.len() as int" % t.t)

    def o_file_read(self, o, args, kw, st, node):
        h = self.ext_inst(o, st, "file")
        if args or kw or h is None or h.fields["_mode"].c != "r" or "_closed" in h.fields:
            raise Unsupported("read of a file", node)
        s = st.copy()
        self.e.write(s, o.loc, h.set("_text", VStr(c="")), node)
        yield s, h.fields["_text"]

    def o_file_close(self, o, args, kw, st, node):
        one(args, kw, [], node, "close")
        for s, ex in self.exit_(o, st.copy(), node):
            yield s, (ex if ex is not None else VNone)

    def exit_(self, o, s, node):
        """Leaving the with statement: yields (state, None | Exc)."""
        h = s.heap[o.loc]
        if h.cls != "ext:file":
            raise Unsupported("with over " + h.cls, node)
        if "_closed" not in h.fields:
            if h.fields["_mode"].c == "w":
                if self.e.exc_permitted(s, "OSError"):
                    s1 = s.copy()
                    self.set_file(s1, h.fields["_path"].t, None, node)
                    yield s1, self.raises(["OSError"], node, "close")
                self.set_file(s, h.fields["_path"].t, h.fields["_text"].t, node)
            self.e.write(s, o.loc, h.set("_closed", VBool.const(True)), node)
        yield s, None
