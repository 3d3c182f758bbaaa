"""Contracts of pymt.keypairs and the encryption helpers of pymt.utils.utils (C20-C24)."""
from pyv.spec import ClassSpec, Contract, Rais, Ret, UnionSpec

LIBS = ["base", "nib", "codec", "text", "hashes", "json", "crypto"]
NOT_BYTES = "str|int|bool|none|list[bytes]|tupleof[bytes]|bytearray"
NOT_BYTES_NONE = "str|int|bool|list[bytes]|tupleof[bytes]|bytearray"
NOT_STR = "bytes|int|bool|none|list[bytes]|bytearray"
ALL = "str|int|bool|none|bytes|list[bytes]"
LOAD = ("ValueError", "IndexError", "TypeError")
K = "$self._key_pair._k"
GENERAL, AUTH, ENC = "RsaKeyPair", "RsaAuthKeyPair", "RsaEncKeyPair"
KINDS = (GENERAL, AUTH, ENC)
PAIR = "|".join(KINDS)


def setup(spec):
    spec.libs = LIBS
    A = spec.add
    spec.unions["json"] = UnionSpec("Json", [
        ("{t} is Str", "str", "({t}->Str_0)", "Json::Str({t})"),
        ("{t} is Num", "int", "({t}->Num_0)", "Json::Num({t})"),
        ("{t} is Null", "none", None, "Json::Null"),
        ("{t} is List", "list[json]", "({t}->List_0)", "Json::List({t})"),
        ("{t} is Obj", "dict[str,json]", "({t}->Obj_0)", "Json::Obj({t})")])
    spec.classes["RsaKeyObj"] = ClassSpec({"_k": "int"}, cls="ext:rsakey")
    for c in KINDS:
        spec.classes[c] = ClassSpec({"_nickname": "str", "_key_pair": "RsaKeyObj"})
        spec.classes["Odd" + c] = ClassSpec({"_nickname": "int|none|list[json]|dict[str,json]", "_key_pair": "RsaKeyObj"}, cls=c)
    spec.classes["FileSystem"] = ClassSpec({"_files": "dict[str,str]"})
    base = ["broadcast use ax_rsa_pub, ax_rsa_pem, ax_rsa_locked, ax_rsa_sig, ax_eax, ax_hexs, ax_unhex, ax_ascii_dec, ax_ascii_enc; lemma_words();"]

    def C(qual, params, **kw):
        kw.setdefault("entry", base)
        A(Contract(qual, params, **kw))

    # ------------------------------------------------------------ C23: password encryption
    C("Utils.encrypt", {"data": "bytes", "password": "str"},
      entry=["lemma_pass_key($password); broadcast use ax_eax, ax_hf_len, ax_utf8_enc, lemma_blob, lemma_blob_right;"],
      returns=Ret("bytes", ensures={"opens with the password": "blob_ok($result, $password)",
                                    "to the data": "blob_data($result, $password) == $data"}),
      raises=[Rais(("UnicodeEncodeError",), {"the password is no valid text": "!text_ok($password)"})])
    C("Utils.decrypt", {"data": "bytes", "password": "str"},
      entry=["lemma_pass_key($password); broadcast use ax_eax, ax_hf_len, ax_utf8_enc, lemma_blob, lemma_blob_right;"],
      returns=Ret("bytes", value="blob_data($data, $password)", ensures={"the tag matches": "blob_ok($data, $password)"}),
      raises=[Rais(("ValueError",), {"the tag does not match": "!(text_ok($password) && blob_ok($data, $password))"})])
    for f in ("encrypt", "decrypt"):
        C("Utils." + f, {"data": NOT_BYTES, "password": "str"}, variant="not-bytes", returns=[], raises=[Rais(("TypeError",))])
        C("Utils." + f, {"data": "bytes", "password": NOT_STR}, variant="not-text", returns=[], raises=[Rais(("TypeError",))])

    # ------------------------------------------------------------ C24: validation of keys
    known = "($key_type =~= w_public() || $key_type =~= w_private())"
    q = "Utils.rsa_key_valid"
    good = "(rsa_ok($key, None) && rsa_priv(rsa_key($key, None)) == ($key_type =~= w_private()))"
    C(q, {"key": "bytes", "key_type": "str", "raise_exeptions": "bool"},
      returns=Ret("bool", value=good, ensures={"known kind": known, "does not load: only without exceptions": "!$raise_exeptions || rsa_ok($key, None)"}),
      raises=[Rais(("KeyError",), {"asked for and does not load": "$raise_exeptions && !rsa_ok($key, None)", "known kind": known}),
              Rais(("ValueError",), {"unknown kind": "!" + known})])
    C(q, {"key": "bytes", "key_type": "str"}, variant="verdict",
      returns=Ret("bool", value=good, ensures={"known kind": known}), raises=[Rais(("ValueError",), {"unknown kind": "!" + known})])
    C(q, {"key": "bytes"}, variant="default", returns=Ret("bool", value="(rsa_ok($key, None) && !rsa_priv(rsa_key($key, None)))"))
    C(q, {"key": NOT_BYTES, "key_type": "str", "raise_exeptions": "bool"}, variant="not-bytes", returns=[], raises=[Rais(("TypeError",))])
    C(q, {"key": "bytes", "key_type": NOT_STR, "raise_exeptions": "bool"}, variant="kind-not-text", returns=[], raises=[Rais(("TypeError",))])
    C(q, {"key": "bytes", "key_type": "str", "raise_exeptions": "bytes|int|none|str"}, variant="flag-not-bool", returns=[],
      raises=[Rais(("TypeError", "ValueError"))])

    # ------------------------------------------------------------ C24: restricted operations
    for cls, qual, params in ((AUTH, "encrypt", ("data", "receiver_public_key")), (AUTH, "decrypt", ("data", "sender_public_key")),
                              (ENC, "sign", ("data",)), (ENC, "signature_valid", ("data", "signature", "public_key")),
                              (ENC, "signature_valid#default", ("data", "signature"))):
        m, _, v = qual.partition("#")
        C(cls + "." + m, {"self": cls, **{p: ALL for p in params}}, variant=v, returns=[], raises=[Rais(("NotImplementedError",))])

    # ------------------------------------------------------------ C20: signatures
    KP = "RsaKeyPair."
    for v, cls in (("", GENERAL + "|" + AUTH), ("explicit", ENC)):
        ex = cls == ENC
        C(KP + "sign", {"self": cls, "data": "bytes"}, variant=v, exact=ex,
          returns=Ret("bytes", value="rsa_sig(%s, alg_sha256(), $data)" % K, ensures={
              "the key can sign": "rsa_signs(%s)" % K,
              "verifies under the public key": "rsa_verifies(rsa_pub(%s), alg_sha256(), $data, $result)" % K}),
          raises=[Rais(("ValueError", "TypeError"), {"the key cannot sign": "!rsa_signs(%s)" % K})])
        C(KP + "sign", {"self": cls, "data": NOT_BYTES}, variant=v + "not-bytes", exact=ex, returns=[], raises=[Rais(("ValueError",))])
        C(KP + "signature_valid", {"self": cls, "data": "bytes", "signature": "bytes", "public_key": "bytes"}, variant=v, exact=ex,
          returns=Ret("bool", value="rsa_verifies(rsa_pub(rsa_key($public_key, None)), alg_sha256(), $data, $signature)",
                      ensures={"the key loads": "rsa_ok($public_key, None)"}),
          raises=[Rais(LOAD, {"the key does not load": "!rsa_ok($public_key, None)"})])
        own = Ret("bool", value="rsa_verifies(rsa_pub(%s), alg_sha256(), $data, $signature)" % K)
        C(KP + "signature_valid", {"self": cls, "data": "bytes", "signature": "bytes"}, variant=v + "own-key", exact=ex, returns=own)
        C(KP + "signature_valid", {"self": cls, "data": "bytes", "signature": "bytes", "public_key": "none"}, variant=v + "no-key", exact=ex,
          returns=own)
        for p, params in (("data", {"data": NOT_BYTES, "signature": "bytes", "public_key": "bytes|none"}),
                          ("signature", {"data": "bytes", "signature": NOT_BYTES, "public_key": "bytes|none"}),
                          ("public_key", {"data": "bytes", "signature": "bytes", "public_key": NOT_BYTES_NONE})):
            C(KP + "signature_valid", {"self": cls, **params}, variant=v + p + "-not-bytes", exact=ex, returns=[], raises=[Rais(("ValueError",))])

    # ------------------------------------------------------------ the public parts
    PEM = "rsa_pem(rsa_pub(%s))" % K
    C(KP + "public_key", {"self": PAIR}, returns=Ret("bytes", value=PEM, ensures={"text": "is_ascii($result)"}))
    C(KP + "public_key_string", {"self": PAIR}, returns=Ret("astr", value=PEM))
    C(KP + "nickname", {"self": PAIR}, returns=Ret("str", value="$self._nickname"))

    # ------------------------------------------------------------ C21: messages
    both = GENERAL + "|" + ENC
    recv = "rsa_key($receiver_public_key, None)"
    C(KP + "encrypt", {"self": both, "data": "bytes", "receiver_public_key": "bytes"},
      returns=Ret("bytes", ensures={"the receiver's key loads": "rsa_ok($receiver_public_key, None)",
                                    "the receiver, told the sender, reads the data": "msg_for($result, rsa_pub(%s), %s, $data)" % (K, recv)}),
      raises=[Rais(LOAD, {"keys unfit": "!(rsa_ok($receiver_public_key, None) && oaep_fits(%s, 16) && rsa_signs(%s))" % (recv, K)})])
    send = "rsa_pub(rsa_key($sender_public_key, None))"
    acc = "rsa_ok($sender_public_key, None) && msg_accepted($data, %s, %s)" % (K, send)
    C(KP + "decrypt", {"self": both, "data": "bytes", "sender_public_key": "bytes"},
      returns=Ret("bytes", value="msg_data($data, %s)" % K, ensures={"the sender's key loads": "rsa_ok($sender_public_key, None)",
                                                                     "a message": "msg_form($data)", "signed by the sender": "msg_signed($data, %s)" % send,
                                                                     "opens": "msg_opens($data, %s)" % K, "the tag matches": "msg_tagged($data, %s)" % K}),
      raises=[Rais(("*",), {"not accepted": "!(%s)" % acc})])
    for m, p in (("encrypt", "receiver_public_key"), ("decrypt", "sender_public_key")):
        C(KP + m, {"self": both, "data": NOT_BYTES, p: "bytes"}, variant="not-bytes", returns=[], raises=[Rais(("ValueError",))])
        C(KP + m, {"self": both, "data": "bytes", p: NOT_BYTES}, variant="key-not-bytes", returns=[], raises=[Rais(("ValueError",))])

    # ------------------------------------------------------------ C22: saved key pairs
    saved = "rsa_priv(%s) && text_ok($self._nickname) ==> saved(%%s, $self._nickname, %s, $passphrase)" % (K, K)
    pass_ok = "(is_bytes($passphrase) && $passphrase.len() > 0)"
    C(KP + "to_key_string", {"self": PAIR, "passphrase": "str"},
      returns=Ret("astr", ensures={"holds the pair, the private key encrypted": saved % "$result"}),
      raises=[Rais(("ValueError",), {"no passphrase for a key": "!" + pass_ok})])
    C(KP + "to_key_string", {"self": PAIR, "passphrase": NOT_STR}, variant="not-text", returns=[], raises=[Rais(("ValueError",))])
    C(KP + "to_key_file", {"self": PAIR, "file": "str", "passphrase": "str", "fs": "FileSystem"}, modifies=("fs._files",),
      returns=Ret("none", ensures={"the file is there": "$fs'._files.dom().contains($file)",
                                   "holds the pair, the private key encrypted": saved % "$fs'._files[$file]"}),
      raises=[Rais(("ValueError",), {"no passphrase for a key": "!" + pass_ok}), Rais(("OSError",), modifies=("fs._files",))])
    C(KP + "to_key_file", {"self": PAIR, "file": NOT_STR, "passphrase": "str", "fs": "FileSystem"}, variant="file-not-text", returns=[],
      raises=[Rais(("ValueError",))])
    C(KP + "to_key_file", {"self": PAIR, "file": "str", "passphrase": NOT_STR, "fs": "FileSystem"}, variant="not-text", returns=[],
      raises=[Rais(("ValueError",))])
    for cls in KINDS:
        def loaded(t):
            e = {"loads": "key_loads(%s, $passphrase)" % t, "the key": "$result._key_pair._k == key_of(%s, $passphrase)" % t}
            return [Ret(cls, ensures={**e, "the nickname": "jhas(unjson(%s), w_nickname()) && $result._nickname == jget(unjson(%s), w_nickname())" % (t, t)}),
                    Ret("Odd" + cls, ensures={**e, "the nickname is no text": "!jhas(unjson(%s), w_nickname())" % t})]
        C(KP + "from_key_string", {"cls": "cls[%s]" % cls, "key": "str", "passphrase": "str"}, variant=cls, returns=loaded("$key"),
          raises=[Rais(("*",), {"does not load": "!key_loads($key, $passphrase)"})])
        C(KP + "from_key_string", {"cls": "cls[%s]" % cls, "key": NOT_STR, "passphrase": "str"}, variant=cls + "-not-text", returns=[],
          raises=[Rais(("ValueError",))])
        C(KP + "from_key_string", {"cls": "cls[%s]" % cls, "key": "str", "passphrase": NOT_STR}, variant=cls + "-passphrase-not-text", returns=[],
          raises=[Rais(("ValueError",))])
        C(KP + "from_key_file", {"cls": "cls[%s]" % cls, "file": "str", "passphrase": "str", "fs": "FileSystem"}, variant=cls,
          returns=loaded("$fs._files[$file]"),
          raises=[Rais(("FileNotFoundError",), {"no such file": "!$fs._files.dom().contains($file)"}), Rais(("OSError",)),
                  Rais(("*",), {"does not load": "!key_loads($fs._files[$file], $passphrase)"})])
    eq = "(%s == rsa_pem(rsa_pub($other._key_pair._k)) && $self._nickname == $other._nickname)" % PEM
    for a, b in ((GENERAL, PAIR), (AUTH, AUTH), (ENC, ENC)):
        C(KP + "__eq__", {"self": a, "other": b}, variant="" if a == GENERAL else a, returns=Ret("bool", value=eq))
    for a, b in ((PAIR, "bytes|int|none|str|bool"), (AUTH, GENERAL + "|" + ENC), (ENC, GENERAL + "|" + AUTH)):
        C(KP + "__eq__", {"self": a, "other": b}, variant=a.replace("|", "-") + "-other", returns=Ret("bool", value="false"))
    C(KP + "__hash__", {"self": PAIR}, entry=base + ["broadcast use ax_hf_len, ax_hex_value;"], returns=Ret("int", value="hex_value(hexs(hf(alg_sha256(), %s)))" % PEM))

    # ------------------------------------------------------------ new key pairs
    fresh = {"private": "rsa_priv($self'._key_pair._k)", "fit to sign": "rsa_signs($self'._key_pair._k)",
             "fit to receive": "oaep_fits(rsa_pub($self'._key_pair._k), 16)"}
    for cls in KINDS:
        C(cls + ".__init__", {"self": "new[%s]" % cls, "nickname": "str"}, modifies=("self",),
          returns=Ret("none", ensures={**fresh, "nickname": "$self'._nickname == $nickname"}))
        C(cls + ".__init__", {"self": "new[%s]" % cls, "nickname": "none"}, modifies=("self",), variant="no-nickname", returns=Ret("none", ensures=fresh))
        C(cls + ".__init__", {"self": "new[%s]" % cls, "nickname": "bytes|int|bool|list[bytes]"}, modifies=("self",), variant="not-text", returns=[],
          raises=[Rais(("ValueError",), modifies=("self",))])
    spec.inline |= {cls + ".__init__" for cls in KINDS}
    C(KP + "generate_keypair", {"self": PAIR, "length": "int"}, modifies=("self._key_pair",), returns=Ret("none", ensures=fresh),
      raises=[Rais(("ValueError",), {"too short": "$length < 1024"})])
    C(KP + "generate_keypair", {"self": PAIR}, variant="default", modifies=("self._key_pair",), returns=Ret("none", ensures=fresh))
