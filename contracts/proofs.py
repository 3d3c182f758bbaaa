"""Contracts of the proofs of pymt.mpt (C05-C08)."""
from pyv.spec import ClassSpec, Contract, Rais, Ret

LIBS = ["base", "nib", "codec", "tree", "trie", "mpt", "proofs"]
S, R, SEC = "$self._storage", "$self._root", "$self._secure"
NONE = "Map::<Seq<int>, Seq<int>>::empty()"
PS = "$proof_storage"


def setup(spec):
    spec.libs = LIBS
    spec.classes["MPTProof"] = ClassSpec({"_timestamp": "bytes", "_target_key": "bytes", "_root_hash": "bytes",
                                          "_proof": "tupleof[bytes]", "_type": "bytes"}, cls="Proof")
    spec.inline |= {"Proof.__init__"}
    A = spec.add
    T = "t0($node_ref)"

    ROLES = {"r": "node_ref", "p": "path", "d": "path._data", "o": "path._offset", "l": "proof", "m": "proof_storage"}
    r, p, m = "{r:Seq<int>}", "{p:Seq<int>}", "{m:Map<Seq<int>, Seq<int>>}"
    NP = "lemma_np_if({d:Seq<int>*}, {o:int}); "

    def down(*inv):
        """For a walk down the trie written as a loop."""
        return {"prefer": ROLES, "loops": [
            "vr0(%s, %s)" % (S, r), "t0(%s) is Nil <==> t0($node_ref) is Nil" % r,
            "{l:Seq<Seq<int>>} + walk(t0(%s), %s) =~= $proof + walk(%s, $path)" % (r, p, T),
            "end_tree(t0(%s), %s) == end_tree(%s, $path) && end_path(t0(%s), %s) == end_path(%s, $path)" % (r, p, T, r, p, T)] + list(inv),
            "measures": ["height(t0(%s))" % r],
            "steps": [NP, "lemma_at(%s, %s); lemma_pat(%s, %s, %s); lemma_end_at(t0(%s), %s);" % (S, r, NONE, r, p, r, p)]}

    def follow(*inv, store=PS):
        return {"prefer": ROLES, "loops": [
            "kref(%s) || is_rlp_of_empty(%s) || %s.len() == 0" % (r, r, r),
            "lookup(ptree(%s), %s) == lookup(ptree($node_ref), $path)" % (r, p),
            "!is_rlp_of_empty(%s) ==> end_tree(ptree(%s), %s) == end_tree(ptree($node_ref), $path)" % (r, r, p),
            "!is_rlp_of_empty(%s) ==> end_path(ptree(%s), %s) == end_path(ptree($node_ref), $path)" % (r, r, p)]
            + list(inv), "measures": ["height(ptree(%s))" % r],
            "steps": [NP, "lemma_krefs(); lemma_pat(%s, %s, %s); lemma_end_at(ptree(%s), %s); lemma_height(ptree(%s));" % (store, r, p, r, p, r)]}
    NIBS = "lemma_np_nibs($path._data, $path._offset); "
    FOLLOW = {"content-addressed storage": "ca(%s)" % S, "reference can be followed": "vr0(%s, $node_ref)" % S}
    STEP = [NIBS + "lemma_at(%s, $node_ref); lemma_pat(%s, $node_ref, $path); lemma_end_at(%s, $path); lemma_ca_emptyh(%s); lemma_emptyh(); "
            "lemma_kref($node_ref); reveal_with_fuel(lookup, 2);" % (S, NONE, T, S)]
    A(Contract("MPT._get_proof_of_inclusion", {"self": "MPT", "node_ref": "bytes", "path": "NibblePath", "proof": "list[bytes]"},
               requires=FOLLOW, entry=STEP,
               decreases="height(%s)" % T, rec="mpt.poi", **down("lookup(t0({r:Seq<int>}), {p:Seq<int>}) == lookup(%s, $path)" % T),
               modifies=("path._offset", "proof"),
               returns=Ret("list[bytes]", alias="proof", ensures={
                   "the path has a value": "lookup(%s, $path) is Some" % T,
                   "adds the nodes on the way to the path": "$proof' =~= $proof + walk(%s, $path)" % T}),
               raises=[Rais(("*",), {"the path has no value": "lookup(%s, $path) is None" % T}, modifies=("path._offset", "proof"))]))
    NODES = ("Leaf", "Extension", "Branch")
    A(Contract("MPT._get_proof_of_exclusion", {"self": "MPT", "node_ref": "bytes", "path": "NibblePath", "proof": "list[bytes]"},
               requires=FOLLOW, entry=STEP,
               decreases="height(%s)" % T, rec="mpt.poe", **down("lookup(t0({r:Seq<int>}), {p:Seq<int>}) == lookup(%s, $path)" % T),
               modifies=("path._offset", "proof"),
               returns=[Ret("tuple[%s,list[bytes]]" % k, alias={1: "proof"}, ensures={
                   "adds the nodes on the way to the path": "$proof' =~= $proof + walk(%s, $path)" % T,
                   "the reference leads to a node": "!(%s is Nil)" % T,
                   "the last node on the way": "$result.0 == nodeof(end_tree(%s, $path))" % T,
                   "what is left of the path": "$path' == end_path(%s, $path)" % T}) for k in NODES],
               raises=[Rais(("*",), {"the trie is empty": "%s is Nil" % T}, modifies=("path._offset", "proof"))]))
    PREQ = {"proof storage": "psok(%s)" % PS, "reference of the trie": "kref($node_ref) || is_rlp_of_empty($node_ref) || $node_ref.len() == 0"}
    PT = "ptree($node_ref)"
    PSTEP = [NIBS + "lemma_pat(%s, $node_ref, $path); lemma_end_at(%s, $path); lemma_height(%s); lemma_emptyh(); reveal_with_fuel(lookup, 2);" % (PS, PT, PT)]
    COV = "kref($node_ref) && wrefs(%s, $path).subset_of(%s.dom())" % (PT, PS)
    A(Contract("MPT._verify_proof_of_inclusion", {"self": "MPT", "node_ref": "bytes", "path": "NibblePath", "proof_storage": "dict[bytes,bytes]"},
               requires=PREQ, entry=PSTEP, noreads=("self._storage",),
               decreases="height(%s)" % PT, rec="mpt.vpoi", **follow(
                   "(%s) && lookup(%s, $path) is Some ==> kref(%s) && wrefs(ptree(%s), %s).subset_of(%s.dom())" % (COV, PT, r, r, p, PS)),
               modifies=("path._offset",),
               returns=Ret("bool", ensures={
                   "accepts only a path with a value": "$result ==> lookup(%s, $path) is Some" % PT,
                   "accepts a complete proof": "%s && lookup(%s, $path) is Some ==> $result" % (COV, PT)}),
               raises=[Rais(("*",), {"the proof is incomplete or the path has no value": "!(%s && lookup(%s, $path) is Some)" % (COV, PT)},
                            modifies=("path._offset",))]))
    EXACT = "exact(%s, $node_ref, $path)" % PS
    A(Contract("MPT._verify_proof_of_exclusion", {"self": "MPT", "node_ref": "bytes", "path": "NibblePath", "proof_storage": "dict[bytes,bytes]"},
               requires=PREQ, entry=PSTEP, noreads=("self._storage",),
               decreases="height(%s)" % PT, rec="mpt.vpoe", **follow(
                   "psok(%s)" % m, "%s ==> exact(%s, %s, %s)" % (EXACT, m, r, p), "kref($node_ref) || %s == $node_ref" % r, store=m),
               modifies=("path._offset", "proof_storage"),
               returns=[Ret("tuple[%s,dict[bytes,bytes]]" % k, alias={1: "proof_storage"}, ensures={
                   "the reference leads to a node": "kref($node_ref)",
                   "the last node on the way": "pnode($result.0, end_tree(%s, $path), $path')" % PT,
                   "what is left of the path": "$path' == end_path(%s, $path)" % PT,
                   "takes the nodes on the way": "%s ==> $proof_storage' =~= %s" % (EXACT, NONE)}) for k in NODES]
               + [Ret("tuple[none,dict[bytes,bytes]]", alias={1: "proof_storage"}, ensures={"a node is missing": "!%s" % EXACT})],
               raises=[Rais(("*",), {"the proof has other nodes than needed": "!%s" % EXACT}, modifies=("path._offset", "proof_storage"))]))
    # ------------------------------------------------------------ the public operations
    STATE = {"trie state": "state(%s, %s, %s)" % (S, R, SEC)}
    KEY = "keyb(%s, $encoded_key)" % SEC
    HAS = "content(%s, %s, $encoded_key) is Some" % (SEC, R)
    GENERATE = ["broadcast use ax_keccak_len; lemma_emptyh(); lemma_kref(%s->0); lemma_keyp(%s, $encoded_key); lemma_pat(%s, %s->0, nibs(%s)); "
                "lemma_end_at(troot(%s), nibs(%s)); lemma_at(%s, %s->0);" % (R, SEC, NONE, R, KEY, R, KEY, S, R)]
    for what, typ, honest, cond in (("inclusion", "MPT-POI", "honest_poi(%s, $result._target_key, $result._root_hash, $result._proof)" % R, HAS),
                                    ("exclusion", "MPT-POE", "honest_poe(%s, $result._target_key, $result._proof)" % R, "troot(%s) is Nil || " % R + HAS)):
        poi = what == "inclusion"
        A(Contract("MPT.get_proof_of_" + what, {"self": "MPT", "encoded_key": "bytes"}, requires=STATE, entry=GENERATE,
                   returns=Ret("MPTProof", ensures={
                       "key of the proof": "$result._target_key == " + KEY,
                       "type of the proof": "$result._type == seq![%s]" % ", ".join("%dint" % b for b in typ.encode()),
                       "the key is %s" % ("present" if poi else "absent"): HAS if poi else "!(%s)" % HAS,
                       "the proof is complete": honest}),
                   raises=[Rais(("*",), {"the key is %s" % ("absent" if poi else "present or the trie is empty"): "!(%s)" % HAS if poi else cond})]))
        TYP = "$proof._type == seq![%s]" % ", ".join("%dint" % b for b in typ.encode())
        HON = ("honest_poi(%s, $proof._target_key, $proof._root_hash, $proof._proof)" if poi else
               "honest_poe(%s, $proof._target_key, $proof._proof)") % R
        LOOK = "lookup(troot(%s), nibs($proof._target_key))" % R
        A(Contract("MPT.verify_proof_of_" + what, {"self": "MPT", "proof": "MPTProof"},
                   requires={"reference of a trie": "kok(%s)" % R}, noreads=("self._storage",),
                   determined={w: "po%s_%s(%s, %s, $proof._type, $proof._target_key, $proof._root_hash, $proof._proof, $proof._timestamp)"
                               % (what[0], w, R, SEC) for w in ("value", "normal")},
                   entry=["broadcast use ax_keccak_len; lemma_emptyh(); lemma_honest(%s, $proof._target_key); lemma_kref(%s->0); "
                          "lemma_end_at(troot(%s), nibs($proof._target_key)); lemma_ptree(%s->0);" % (R, R, R, R)
                          + (" lemma_last(%s, $proof._target_key, $proof._proof);" % R if not poi else "")],
                   loops=["psok({m:Map<Seq<int>, Seq<int>>})", "{m:Map<Seq<int>, Seq<int>>}.dom() =~= refs_upto($proof._proof, {@})",
                          "%s && %s ==> canonical({m:Map<Seq<int>, Seq<int>>})" % (TYP, HON)],
                   returns=Ret("bool", ensures={
                       "accepts only what is so": "$result ==> %s is %s" % (LOOK, "Some" if poi else "None"),
                       "an empty trie accepts nothing": "$result ==> !(troot(%s) is Nil)" % R,
                       "accepts a complete proof": "%s && %s ==> $result" % (TYP, HON)}),
                   raises=[Rais(("*",), {"the proof is not a complete one": "!(%s && %s)" % (TYP, HON)})]))
