"""Contracts of the extended tries of pymt.empt (C12-C14)."""
from pyv.spec import ClassSpec, Contract, Rais, Ret, UnionSpec

LIBS = ["base", "nib", "codec", "tree", "trie", "mpt", "proofs", "serial", "refs", "emap"]
DS, DS2 = "$self._data_storage", "$self'._data_storage"
S, R, SEC = "$self._trie._storage", "$self._trie._root", "$self._trie._secure"
S2, R2, SEC2 = "$self'._trie._storage", "$self'._trie._root", "$self'._trie._secure"
NOT_BYTES = "str|int|bool|none|bytearray|list[bytes]|tupleof[bytes]"
STORES = ("self._trie._storage", "self._trie._root")
BOTH = STORES + ("self._data_storage",)
STATE = {"trie state": "state(%s, %s, %s)" % (S, R, SEC)}
STAYS = {"trie state": "state(%s, %s, %s)" % (S2, R2, SEC)}
# a value replaced behind the trie's back keeps this
OK = {**STATE, "trie and data storage have the same keys": "keys_ok(%s, %s, %s)" % (SEC, R, DS)}
KEPT = {"trie and data storage have the same keys": "keys_ok(%s, %s, %s) ==> keys_ok(%s, %s, %s)" % (SEC, R, DS, SEC, R2, DS2),
        "the references stay references": "erefs_ok(%s, %s) ==> erefs_ok(%s, %s)" % (SEC, R, SEC, R2),
        "the trie holds the references to the data": "emap_ok(%s, %s, %s) ==> emap_ok(%s, %s, %s)" % (SEC, R, DS, SEC, R2, DS2)}
DIGEST = "broadcast use ax_keccak_len, ax_hex_value, ax_oenc;"


def setup(spec):
    spec.libs = LIBS
    spec.unions["val"] = UnionSpec("Val", [
        ("{t} is B", "bytes", "({t}->B_0)", "Val::B({t})"),
        ("{t} is A", "bytearray", "({t}->A_0)", "Val::A({t})"),
        ("{t} is O", "encodable", "({t}->O_0)", "Val::O({t})")])
    spec.unions["val"].inv = "val_ok({t})"
    spec.unions["val"].mapinv = "vals_ok({t})"
    spec.classes["EMPT"] = ClassSpec({"_data_storage": "dict[bytes,val]", "_trie": "MPT"}, rebind=("_trie",))
    spec.classes["SparseEMPT"] = ClassSpec({"_trie": "MPT"}, rebind=("_trie",))
    spec.classes["RootEMPT"] = ClassSpec({"_trie": "MPT"}, rebind=("_trie",))
    A = spec.add
    K, V = "$key", "$value"
    IN = "%s.dom().contains($key)" % DS
    CONTENT = "content(%s, %s, $key)" % (SEC, R)
    GOOD = "(%s && %s == Some(dref($key, vbytes(%s[$key]))))" % (IN, CONTENT, DS)
    GET = ["lemma_refdata($key, vbytes(%s[$key])); lemma_drefs(); lemma_dref_injs(); lemma_dref($key, vbytes(%s[$key])); %s" % (DS, DS, DIGEST)]
    for name in ("get", "__getitem__"):
        A(Contract("EMPT." + name, {"self": "EMPT", "key": "bytes"}, requires=STATE, entry=GET,
                   returns=Ret("val", ensures={"the value stored under the key": "%s && $result == %s[$key]" % (IN, DS),
                                               "it matches the reference": "erefs_ok(%s, %s) ==> %s" % (SEC, R, GOOD)}),
                   raises=[Rais(("*",), {"the key is absent or its value does not match the reference": "!" + GOOD})]))
    for name in ("update", "__setitem__"):
        A(Contract("EMPT." + name, {"self": "EMPT", "key": "bytes", "value": "val"}, requires=STATE,
                   entry=["lemma_dref($key, vbytes($value)); " + DIGEST],
                   exit=["lemma_emap_put(%s, %s, %s, %s, $key, $value);" % (SEC, R, R2, DS)],
                   modifies=BOTH,
                   returns=Ret("none", ensures={**STAYS,
                       "stores the value": "%s == %s.insert($key, $value)" % (DS2, DS),
                       "stores the reference and nothing else": "changed(%s, %s, %s, $key, Some(dref($key, vbytes($value))))" % (SEC, R, R2),
                       "key": "keyok(%s, $key)" % SEC, **KEPT})))
        A(Contract("EMPT." + name, {"self": "EMPT", "key": "bytes", "value": "encoder|decoder|int|str|none"}, variant="not-a-value",
                   returns=[], raises=[Rais(("NotImplementedError",))]))
    for name in ("delete", "__delitem__"):
        A(Contract("EMPT." + name, {"self": "EMPT", "key": "bytes"}, requires=OK,
                   exit=["lemma_emap_del(%s, %s, %s, %s, $key);" % (SEC, R, R2, DS)],
                   modifies=BOTH,
                   returns=Ret("none", ensures={**STAYS,
                       "the key was there": IN,
                       "removes the value": "%s == %s.remove($key)" % (DS2, DS),
                       "removes the reference and nothing else": "changed(%s, %s, %s, $key, None)" % (SEC, R, R2), **KEPT}),
                   raises=[Rais(("*",), {"the key is absent": "!" + IN})]))
    for name in ("contains", "__contains__"):
        A(Contract("EMPT." + name, {"self": "EMPT", "key": "bytes"}, requires=OK,
                   returns=Ret("bool", value="(%s is Some)" % CONTENT, ensures={"exactly if a value is stored": "$result <==> " + IN})))
    A(Contract("EMPT.__len__", {"self": "EMPT"}, returns=Ret("int", value="(%s.dom().len() as int)" % DS)))
    A(Contract("EMPT.__iter__", {"self": "EMPT"}, returns=Ret("ValIter", shares={"result.d": "self._data_storage"})))
    spec.classes["ValIter"] = ClassSpec({"d": "dict[bytes,val]"}, cls="ext:dictiter")
    # ------------------------------------------------------------ construction
    EMPTYD, EMPTYT = "Map::<Seq<int>, Val>::empty()", "Map::<Seq<int>, Seq<int>>::empty()"
    for tgiven in (True, False):
        for dgiven in (True, False):
            ps = {"self": "new[EMPT]", "root": "opt[bytes]", "secure": "bool"}
            sh = {}
            if tgiven:
                ps["trie_storage"] = "dict[bytes,bytes]"
                sh["self._trie._storage"] = "trie_storage"
            if dgiven:
                ps["data_storage"] = "dict[bytes,val]"
                sh["self._data_storage"] = "data_storage"
            T0 = "$trie_storage" if tgiven else EMPTYT
            D0 = "$data_storage" if dgiven else EMPTYD
            A(Contract("EMPT.__init__", ps, variant=("" if tgiven else "own-nodes") + ("" if dgiven else "own-data"), modifies=("self",),
                       entry=["lemma_empty_emap($secure); lemma_emptyh();"],
                       returns=Ret("none", ensures={
                           "uses the storages": "%s == %s && %s == %s" % (S2, T0, DS2, D0),
                           "opens the root": "%s == (match $root { None => Some(emptyh()), Some(b) => Some(b) })" % R2,
                           "mode": "%s == $secure" % SEC2,
                           "empty, unless given a root": "$root is None ==> state(%s, %s, %s) && (%s == %s ==> emap_ok(%s, %s, %s))" % (S2, R2, SEC2, D0, EMPTYD, SEC2, R2, DS2)},
                           shares=sh),
                       raises=[Rais(("ValueError",), {"nodes without a root": "%s.dom().len() != 0 && $root is None" % T0}, modifies=("self",))]))
    spec.inline.add("EMPT.__init__")
    A(Contract("SparseEMPT.__init__", {"self": "new[SparseEMPT]", "trie_storage": "dict[bytes,bytes]", "root": "opt[bytes]", "secure": "bool"},
               modifies=("self",), returns=Ret("none", ensures={
                   "uses the storage": "%s == $trie_storage" % S2, "mode": "%s == $secure" % SEC2,
                   "opens the root": "%s == (match $root { None => Some(emptyh()), Some(b) => Some(b) })" % R2},
                   shares={"self._trie._storage": "trie_storage"})))
    A(Contract("SparseEMPT.__init__", {"self": "new[SparseEMPT]", "root": "opt[bytes]", "secure": "bool"}, variant="own-nodes",
               modifies=("self",), returns=Ret("none", ensures={
                   "uses the storage": "%s == %s" % (S2, EMPTYT), "mode": "%s == $secure" % SEC2,
                   "opens the root": "%s == (match $root { None => Some(emptyh()), Some(b) => Some(b) })" % R2})))
    A(Contract("RootEMPT.__init__", {"self": "new[RootEMPT]", "root": "opt[bytes]", "secure": "bool"},
               modifies=("self",), returns=Ret("none", ensures={
                   "keeps no nodes": "%s == %s" % (S2, EMPTYT), "mode": "%s == $secure" % SEC2,
                   "opens the root": "%s == (match $root { None => Some(emptyh()), Some(b) => Some(b) })" % R2})))
    spec.inline |= {"SparseEMPT.__init__", "RootEMPT.__init__"}
    # ------------------------------------------------------------ views
    SAME = {"same root": "$result._trie._root == Some(root_or_empty(%s))" % R,
            "same root hash": "rhash($result._trie._root) == rhash(%s)" % R,
            "same content": "troot($result._trie._root) == troot(%s)" % R,
            "same mode": "$result._trie._secure == " + SEC}
    VIEW = "lemma_view(%s, %s); " % (SEC, R)
    for cls in ("EMPT", "SparseEMPT", "RootEMPT"):
        A(Contract(cls + ".root_hash", {"self": cls}, returns=Ret("bytes", value="rhash(%s)" % R)))
        if cls != "RootEMPT":
            A(Contract(cls + ".root", {"self": cls}, returns=Ret("opt[bytes]", value=R)))
            A(Contract(cls + ".get_root_trie", {"self": cls}, entry=[VIEW], returns=Ret("RootEMPT", ensures=SAME)))
            A(Contract(cls + ".get_reference", {"self": cls, "key": "bytes"}, requires=STATE, entry=["lemma_drefs();"],
                       returns=Ret("DataReference", ensures={"the reference stored": "%s == Some(dref($result._key, $result._data))" % CONTENT,
                                                                    "key": "keyok(%s, $key)" % SEC}),
                       raises=[Rais(("*",), {"no reference is stored": "!(%s is Some && isdref(%s->0))" % (CONTENT, CONTENT)})]))
        if cls != "SparseEMPT":
            A(Contract(cls + ".secure", {"self": cls}, returns=Ret("bool", value=SEC)))
    A(Contract("EMPT.get_sparse_trie", {"self": "EMPT"}, entry=[VIEW + "lemma_parts(%s);" % S],
               loops=["{m:Map<Seq<int>, Seq<int>>} =~= part_of({#:Seq<Seq<int>>}, %s, {@})" % S],
               returns=Ret("SparseEMPT", ensures={**SAME, "a copy of the nodes": "$result._trie._storage == " + S})))
    for name in ("update", "__setitem__"):
        A(Contract("SparseEMPT." + name, {"self": "SparseEMPT", "key": "bytes", "value": "val"}, requires=STATE,
                   entry=["lemma_dref($key, vbytes($value)); " + DIGEST], modifies=STORES,
                   returns=Ret("none", ensures={**STAYS, "key": "keyok(%s, $key)" % SEC,
                       "stores the reference and nothing else": "changed(%s, %s, %s, $key, Some(dref($key, vbytes($value))))" % (SEC, R, R2)})))
        A(Contract("SparseEMPT." + name, {"self": "SparseEMPT", "key": "bytes", "value": "encoder|decoder|int|str|none"}, variant="not-a-value",
                   returns=[], raises=[Rais(("NotImplementedError",))]))
    for name in ("delete", "__delitem__"):
        A(Contract("SparseEMPT." + name, {"self": "SparseEMPT", "key": "bytes"}, requires=STATE, modifies=STORES,
                   returns=Ret("none", ensures={**STAYS, "the key was there": CONTENT + " is Some", "key": "keyok(%s, $key)" % SEC,
                       "removes the reference and nothing else": "changed(%s, %s, %s, $key, None)" % (SEC, R, R2)}),
                   raises=[Rais(("*",), {"the key is absent": CONTENT + " is None"})]))
    for name in ("contains", "__contains__"):
        A(Contract("SparseEMPT." + name, {"self": "SparseEMPT", "key": "bytes"}, requires=STATE,
                   returns=Ret("bool", value="(%s is Some)" % CONTENT)))
    A(Contract("SparseEMPT.__getitem__", {"self": "SparseEMPT", "key": "bytes"}, returns=[], raises=[Rais(("TypeError",))]))
    # ------------------------------------------------------------ proofs
    HAS = CONTENT + " is Some"
    for cls in ("EMPT", "SparseEMPT", "RootEMPT"):
        for what, typ in (("inclusion", "MPT-POI"), ("exclusion", "MPT-POE")):
            poi = what == "inclusion"
            TYP = "_type == seq![%s]" % ", ".join("%dint" % b for b in typ.encode())
            if cls != "RootEMPT":
                honest = ("honest_poi(%s, $result._target_key, $result._root_hash, $result._proof)" if poi else "honest_poe(%s, $result._target_key, $result._proof)") % R
                A(Contract("%s.get_proof_of_%s" % (cls, what), {"self": cls, "key": "bytes"}, requires=STATE,
                           returns=Ret("MPTProof", ensures={
                               "key of the proof": "$result._target_key == keyb(%s, $key)" % SEC, "type of the proof": "$result." + TYP,
                               "the key is %s" % ("present" if poi else "absent"): HAS if poi else "!(%s)" % HAS, "the proof is complete": honest}),
                           raises=[Rais(("*",), {"the key is %s" % ("absent" if poi else "present or the trie is empty"):
                                                 "!(%s)" % HAS if poi else "troot(%s) is Nil || %s" % (R, HAS)})]))
            args = "(%s, %s, $proof._type, $proof._target_key, $proof._root_hash, $proof._proof, $proof._timestamp)" % (R, SEC)
            A(Contract("%s.verify_proof_of_%s" % (cls, what), {"self": cls, "proof": "MPTProof"}, requires={"reference of a trie": "kok(%s)" % R},
                       returns=Ret("bool", ensures={
                           "the verdict on the proof for this root": "po%s_normal%s && $result == po%s_value%s" % (what[0], args, what[0], args),
                           "an empty trie accepts nothing": "$result ==> !(troot(%s) is Nil)" % R}),
                       raises=[Rais(("*",), {"no verdict on the proof for this root": "!po%s_normal%s" % (what[0], args)})]))
    # ------------------------------------------------------------ encoding
    FORM = {"only the form of a trie": "form($data)", "the root written": "$result._trie._root == Some(form_root($data))",
            "the nodes written": "$result._trie._storage == form_storage($data)", "the mode written": "$result._trie._secure == form_secure($data)"}
    for cls in ("SparseEMPT", "RootEMPT"):
        A(Contract(cls + ".encode_rlp", {"self": cls}, requires={"content-addressed storage": "ca(%s)" % S},
                   returns=Ret("bytes", ensures={
                       "has the form of a trie": "form($result)",
                       "holds the root": "form_root($result) == root_or_empty(%s)" % R,
                       "same content": "troot(Some(form_root($result))) == troot(%s)" % R,
                       "same root hash": "rhash(Some(form_root($result))) == rhash(%s)" % R,
                       "holds every node": "form_storage($result) == %s" % S,
                       "holds the mode": "form_secure($result) == %s" % SEC})))
        A(Contract(cls + ".decode_rlp", {"data": "bytes"}, returns=Ret(cls, ensures=FORM),
                   raises=[Rais(("*",), {"not the form of a trie": "!form($data)"})]))
    # ------------------------------------------------------------ rebuilding
    A(Contract("EMPT.build_trie", {"self": "EMPT"}, requires={"state": "ca(%s)" % S},
               entry=["lemma_removed(%s); lemma_parts(%s); lemma_part_step(%s); lemma_empty_emap(%s); lemma_emptyh(); lemma_drefs(); %s" % (S, DS, DS, SEC, DIGEST)],
               loops=["{m:Map<Seq<int>, Seq<int>>*} =~= removed({#:Seq<Seq<int>>}, %s, {@})" % S,
                      "state({m:Map<Seq<int>, Seq<int>>*}, {r:Option<Seq<int>>}, %s)" % SEC,
                      "emap_ok(%s, {r:Option<Seq<int>>}, part_of({#:Seq<Seq<int>>}, %s, {@}))" % (SEC, DS)],
               exit=["lemma_same_data(%s, %s, %s, %s, %s, %s);" % (S, R, S2, R2, SEC, DS)],
               modifies=("self._trie",),
               returns=Ret("none", ensures={**STAYS, "same mode": "%s == %s" % (SEC2, SEC),
                   "the trie holds the references to the data": "emap_ok(%s, %s, %s)" % (SEC, R2, DS),
                   "same root hash, if it was in order": "state(%s, %s, %s) && emap_ok(%s, %s, %s) ==> rhash(%s) == rhash(%s) && troot(%s) == troot(%s)" % (S, R, SEC, SEC, R, DS, R, R2, R, R2)})))
