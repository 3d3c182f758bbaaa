"""Contracts of pymt.proof (C19)."""
from pyv.spec import ClassSpec, Contract, Rais, Ret

LIBS = ["base", "nib", "codec", "text", "hashes", "merkle", "json", "proofobj"]
FIELDS = ("_type", "_timestamp", "_target_key", "_root_hash", "_proof")
OTHER = "str|int|bool|none|bytearray|list[bytes]|tupleof[bytes]"


def of(o):
    return ", ".join("%s.%s" % (o, f) for f in FIELDS)


def setup(spec):
    spec.libs = LIBS
    spec.classes["AnyProof"] = ClassSpec({"_timestamp": "bytes", "_target_key": "bytes", "_root_hash": "bytes",
                                          "_proof": "tupleof[entry]", "_type": "bytes"}, cls="Proof", inv="known_type({_type})")
    A = spec.add
    types = ["lemma_types();"]
    good = {"target_key": "bytes", "root_hash": "bytes", "proof": "tupleof[entry]", "proof_type": "bytes"}
    A(Contract("Proof.__init__", {"self": "new[AnyProof]", **good}, modifies=("self",),
               returns=Ret("none", ensures={"known type": "known_type($proof_type)", "type": "$self'._type == $proof_type", "time": "is_ascii($self'._timestamp)",
                                            "key": "$self'._target_key == $target_key", "root": "$self'._root_hash == $root_hash",
                                            "entries": "$self'._proof == $proof"}),
               raises=[Rais(("TypeError",), {"unknown type": "!known_type($proof_type)"}, modifies=("self",))]))
    for p in good:
        A(Contract("Proof.__init__", {"self": "new[AnyProof]", **good, p: OTHER.replace("|tupleof[bytes]", "") if p == "proof" else OTHER},
                   variant=p + "-not-" + ("tuple" if p == "proof" else "bytes"), modifies=("self",), returns=[],
                   raises=[Rais(("TypeError",), {}, modifies=("self",))]))
    spec.inline.add("Proof.__init__")
    same = " && ".join("$self.%s == $other.%s" % (f, f) for f in FIELDS)
    A(Contract("Proof.__eq__", {"self": "AnyProof", "other": "AnyProof"},
               entry=["lemma_py_entries($self._proof, $other._proof); lemma_hash_numbers(); broadcast use ax_py_str, ax_ascii_enc, ax_keccak_len, ax_hex_value;"],
               returns=Ret("bool", value="(%s)" % same)))
    A(Contract("Proof.__eq__", {"self": "AnyProof", "other": "bytes|int|none|str|bool"}, variant="other", returns=Ret("bool", value="false")))
    # ------------------------------------------------------------ JSON
    text = "ptext(%s)" % of("$self")
    A(Contract("Proof.encode_json", {"self": "AnyProof"},
               entry=types + ["lemma_jentries($self._proof); lemma_jsame($self._proof); lemma_jpart($self._proof); reveal_with_fuel(json_text, 2); broadcast use ax_utf8_dec, ax_ascii_dec, ax_ascii_enc;"],
               loops=["jpart({l:Seq<Json>}, $self._proof, {@})"],
               returns=Ret("str", ensures={
                   "of a Merkle tree": "$self._type == ty_mt()", "text": text, "JSON": "json_ok($result)",
                   "holds the fields": "pjson(unjson($result), %s)" % of("$self")}),
               raises=[Rais(("*",), {"not of a Merkle tree, or not text": "!($self._type == ty_mt() && %s)" % text})]))
    ghost = {"ts": "Seq<int>", "key": "Seq<int>", "root": "Seq<int>", "es": "Seq<Entry>"}
    args = "ty_mt(), $ts, $key, $root, $es"
    read = {"type": "$result._type == ty_mt()", "time": "$result._timestamp == $ts", "key": "$result._target_key == $key",
            "root": "$result._root_hash == $root", "entries": "$result._proof =~~= $es"}
    okf = "is_bytes($ts) && is_bytes($key) && is_bytes($root) && entries_ok($es)"
    shape = {}
    for k, t in (("proof_type", "Str"), ("timestamp", "Str"), ("target_key", "Str"), ("root_hash", "Str"), ("proof", "List")):
        key = "seq![%s]" % ", ".join("%dint" % ord(x) for x in k)
        shape["has " + k] = "(unjson($json_proof)->Obj_0).dom().contains(%s)" % key
        shape["kind of " + k] = "(unjson($json_proof)->Obj_0)[%s] is %s" % (key, t)
    A(Contract("Proof.decode_json", {"json_proof": "str"}, ghost=ghost,
               requires={"an object": "unjson($json_proof) is Obj", **shape, "the JSON form of a proof": "json_ok($json_proof) && pjson(unjson($json_proof), %s)" % args,
                         "of these fields": "%s && ptext(%s)" % (okf, args)},
               entry=types + ["lemma_epart($es); broadcast use ax_utf8_dec, ax_utf8_enc;"],
               loops=["epart({l:Seq<Entry>}, $es, {@})"],
               returns=Ret("AnyProof", ensures=read)))
    # ------------------------------------------------------------ RLP
    A(Contract("Proof.encode_rlp", {"self": "AnyProof"},
               entry=types + ["lemma_prlp(%s);" % of("$self")],
               returns=Ret("bytes", value="prlp(%s)" % of("$self"), ensures={"of a Merkle tree": "$self._type == ty_mt()"}),
               raises=[Rais(("NotImplementedError",), {"not of a Merkle tree": "$self._type != ty_mt()"})]))
    A(Contract("Proof.decode_rlp", {"rlp_bytes": "bytes"}, ghost=ghost,
               requires={"the RLP form of a proof": "$rlp_bytes == prlp(%s)" % args, "of these fields": okf},
               entry=types + ["lemma_prlp(%s); lemma_eitems($es); lemma_epart($es);" % args],
               loops=["epart({l:Seq<Entry>}, $es, {@})"],
               returns=Ret("AnyProof", ensures=read)))
