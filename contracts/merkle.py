"""Contracts of pymt.merkletools and pymt.mt (C16-C18)."""
from pyv.spec import ClassSpec, Contract, Rais, Ret, UnionSpec

LIBS = ["base", "nib", "codec", "text", "hashes", "merkle"]
A, SEC, LEAVES, LEVELS, READY = "$self.hash_function", "$self._secure", "$self.leaves", "$self.levels", "$self.is_ready"
BOTH = "MerkleTools|MerkleTree"
GOOD = "good_levels(%s, %s->0, %s)" % (A, LEVELS, LEAVES)
ROOT = "mroot(%s, %s)" % (A, LEAVES)
LEVEL_HINT = "if {L} is Some {{ lemma_levels({a}, {L}->0, {l}); }}".format(a=A, L=LEVELS, l=LEAVES)
BYTES_HINT = "if {l}.len() > 0 {{ lemma_mroot_bytes({a}, {l}); lemma_hexs({r}); }}".format(a=A, l=LEAVES, r=ROOT)


def setup(spec):
    spec.libs = LIBS
    fields = {"hash_function": "hashfn", "_secure": "bool", "leaves": "list[bytearray]",
              "levels": "opt[list[list[byteslike]]]", "is_ready": "bool"}
    for cls in ("MerkleTools", "MerkleTree"):
        spec.classes[cls] = ClassSpec(fields, inv="mt_inv({hash_function}, {leaves}, {levels}, {is_ready})",
                                      rebind=("leaves", "levels"), may_alias={"leaves": ("levels",)})
    spec.unions["entry"] = UnionSpec("Entry", [
        ("{t} is B", "bytes", "({t}->B_0)", "Entry::B({t})"),
        ("{t} is T", "tupleof[bytes]", "({t}->T_0)", "Entry::T({t})"),
    ])
    spec.unions["entry"].inv = "entry_ok({t})"
    spec.unions["entry"].seqinv = "entries_ok({t})"
    spec.classes["MTProof"] = ClassSpec({"_timestamp": "bytes", "_target_key": "bytes", "_root_hash": "bytes",
                                         "_proof": "tupleof[entry]", "_type": "bytes"}, cls="Proof")
    spec.inline |= {"MerkleTools._to_hex", "MerkleTools.get_leaf_count",
                    "MerkleTools.secure"}
    add = spec.add
    known = "known_alg(str_lower($hash_type))"
    new = {"hash function": "$self'.hash_function =~= str_lower($hash_type)", "no leaves": "$self'.leaves.len() == 0"}
    bad = Rais(("*",), {"unknown hash function": "!%s" % known})
    add(Contract("MerkleTools.__init__", {"self": "new[MerkleTools]|new[MerkleTree]", "hash_type": "str", "secure": "bool"}, modifies=("self",),
                 returns=Ret("none", ensures={"known hash function": known, **new, "mode": "$self'._secure == $secure"}), raises=[bad]))
    add(Contract("MerkleTree.__init__", {"self": "new[MerkleTree]", "secure": "bool", "hash_type": "str"}, modifies=("self",),
                 returns=Ret("none", ensures={"known hash function": known, **new, "mode": "$self'._secure == $secure"}), raises=[bad]))
    for q, t in (("MerkleTools.reset_tree", BOTH), ("MerkleTree.reset_tree", "MerkleTree")):
        add(Contract(q, {"self": t}, modifies=("self.leaves", "self.levels", "self.is_ready"),
                     returns=Ret("none", ensures={"no leaves": "$self'.leaves.len() == 0", "not ready": "!$self'.is_ready"})))
    # ------------------------------------------------------------ leaves
    add(Contract("MerkleTools.add_leaf", {"self": BOTH, "value": "bytes|bytearray"}, modifies=("self.leaves", "self.levels", "self.is_ready"),
                 returns=Ret("none", ensures={
                     "the leaf comes last": "$self'.leaves =~= %s.push(leafval(%s, %s, $value))" % (LEAVES, A, SEC),
                     "not ready": "!$self'.is_ready"})))
    appended = "$self'.leaves =~= %s + Seq::new($values.len(), |i: int| leafval(%s, %s, $values[i]))" % (LEAVES, A, SEC)
    add(Contract("MerkleTree.put", {"self": "MerkleTree", "value": "bytes"}, modifies=("self.leaves", "self.levels", "self.is_ready"),
                 returns=Ret("none", ensures={
                     "the leaf comes last": "$self'.leaves =~= %s.push(leafval(%s, %s, $value))" % (LEAVES, A, SEC),
                     "not ready": "!$self'.is_ready"})))
    add(Contract("MerkleTree.put", {"self": "MerkleTree", "value": "bytearray|str|none|int|bool"}, variant="not-bytes", returns=[],
                 raises=[Rais(("TypeError",), {})]))
    add(Contract("MerkleTree.put_list", {"self": "MerkleTree", "values": "list[bytes]|tupleof[bytes]"},
                 modifies=("self.leaves", "self.levels", "self.is_ready"),
                 loops=["{l:Seq<Seq<int>>} =~= %s + Seq::new({@} as nat, |i: int| leafval(%s, %s, $values[i]))" % (LEAVES, A, SEC),
                        "{@} > 0 ==> !{r:bool}"],
                 returns=Ret("none", ensures={"the leaves come last, in order": appended,
                                              "not ready": "$values.len() > 0 ==> !$self'.is_ready"})))
    add(Contract("MerkleTools.get_leaf", {"self": BOTH, "index": "int"},
                 returns=Ret("str", value="hexs(%s[pyidx($index, %s.len() as int)])" % (LEAVES, LEAVES),
                             ensures={"in range": "-%s.len() <= $index < %s.len()" % (LEAVES, LEAVES)}),
                 raises=[Rais(("IndexError",), {"out of range": "!(-%s.len() <= $index < %s.len())" % (LEAVES, LEAVES)})]))
    add(Contract("MerkleTree.get", {"self": "MerkleTree", "index": "int"},
                 returns=Ret("str", value="hexs(%s[pyidx($index, %s.len() as int)])" % (LEAVES, LEAVES),
                             ensures={"in range": "-%s.len() <= $index < %s.len()" % (LEAVES, LEAVES)}),
                 raises=[Rais(("IndexError",), {"out of range": "!(-%s.len() <= $index < %s.len())" % (LEAVES, LEAVES)})]))
    for q in ("MerkleTools.__len__", "MerkleTools.get_leaf_count"):
        add(Contract(q, {"self": BOTH}, returns=Ret("int", value="%s.len() as int" % LEAVES)))
    add(Contract("MerkleTree.get_count", {"self": "MerkleTree"}, returns=Ret("int", value="%s.len() as int" % LEAVES)))
    # ------------------------------------------------------------ levels
    add(Contract("MerkleTools._calculate_next_level", {"self": BOTH}, modifies=("self.levels",), open=("self",),
                 requires={"there is a level": "%s is Some && %s->0.len() > 0" % (LEVELS, LEVELS),
                           "a supported hash function": "known_alg(%s)" % A},
                 loops=["{l:Seq<Seq<int>>} =~= level_up(%s, %s->0[0]).subrange(0, {@})" % (A, LEVELS),
                        "{i:int} % 2 == 0", "{i:int} <= %s->0[0].len() + 1" % LEVELS,
                        "{l:Seq<Seq<int>>} =~= level_up(%s, %s->0[0]).subrange(0, {i:int} / 2)" % (A, LEVELS)],
                 returns=Ret("none", ensures={
                     "a level more": "$self'.levels is Some && $self'.levels->0.len() == %s->0.len() + 1" % LEVELS,
                     "its size": "$self'.levels->0[0].len() == level_up(%s, %s->0[0]).len()" % (A, LEVELS),
                     "the level above": "$self'.levels->0[0] =~= level_up(%s, %s->0[0])" % (A, LEVELS),
                     "the levels below": "$self'.levels->0 =~= seq![level_up(%s, %s->0[0])] + %s->0" % (A, LEVELS, LEVELS)})))
    made = {"ready": "$self'.is_ready",
            "levels of the current leaves": "%s.len() > 0 ==> $self'.levels is Some && good_levels(%s, $self'.levels->0, %s)" % (LEAVES, A, LEAVES)}
    for q, t in (("MerkleTools.make_tree", BOTH), ("MerkleTree.make_tree", "MerkleTree")):
        add(Contract(q, {"self": t}, modifies=("self.levels", "self.is_ready"), entry=["lemma_chain_cons(%s);" % A],
                     loops=["V is Some && chain(%s, V->0) && V->0.len() > 0 && V->0[0].len() > 0 && V->0[V->0.len() - 1] == %s"
                            .replace("V", "{v:Option<Seq<Seq<Seq<int>>>>}") % (A, LEAVES)],
                     returns=Ret("none", ensures=made)))
    # ------------------------------------------------------------ root
    ready = "(%s && %s is Some)" % (READY, LEVELS)
    add(Contract("MerkleTools.get_merkle_root", {"self": BOTH}, entry=[LEVEL_HINT],
                 returns=Ret("str", value="hexs(%s)" % ROOT, hints=[BYTES_HINT],
                             ensures={"ready": ready, "there are leaves": "%s.len() > 0" % LEAVES}),
                 raises=[Rais(("ValueError",), {"not ready": "!" + ready})]))
    add(Contract("MerkleTree.get_merkle_root", {"self": "MerkleTree"}, modifies=("self.levels", "self.is_ready"), entry=["broadcast use ax_ascii_enc; " + BYTES_HINT],
                 returns=Ret("bytes", value="hexs(%s)" % ROOT,
                             ensures={"there are leaves": "%s.len() > 0" % LEAVES, "ready": "$self'.is_ready && $self'.levels is Some",
                                      "the same levels": "%s ==> $self'.levels == %s" % (ready, LEVELS)}),
                 raises=[Rais(("ValueError",), {"no leaves": "%s.len() == 0" % LEAVES}, modifies=("self.levels", "self.is_ready"))]))
    # ------------------------------------------------------------ proofs
    val = "leafval(%s, %s, $key)" % (A, SEC)
    inc = "(%s && %s.contains(%s))" % (ready, LEAVES, val)
    add(Contract("MerkleTools.get_proof_of_inclusion", {"self": BOTH, "key": "bytes"},
                 entry=["lemma_first(%s, %s); lemma_level_sizes(%s, %s->0); reveal_with_fuel(mpath, 2);" % (LEAVES, val, A, LEVELS)],
                 loops=["{proof:Seq<(Seq<int>, Seq<int>)>} + mpath(L, L.len() - 1 - {@}, {index:int}) =~= the_path(L, %s)".replace("L", LEVELS + "->0") % val,
                        "0 <= {index:int} < L[L.len() - 1 - {@}].len()".replace("L", LEVELS + "->0"),
                        "{proof:Seq<(Seq<int>, Seq<int>)>} + mpath(L, {x:int}, {index:int}) =~= the_path(L, %s)".replace("L", LEVELS + "->0") % val,
                        "0 <= {x:int} < L.len()".replace("L", LEVELS + "->0"), "0 <= {index:int} < L[{x:int}].len()".replace("L", LEVELS + "->0")],
                 returns=Ret("list[onekey]", value="the_path(%s->0, %s)" % (LEVELS, val), ensures={"present": inc}),
                 raises=[Rais(("ValueError",), {"no such leaf, or not ready": "!" + inc})]))
    path = "the_path(%s->0, %s)" % (LEVELS, val)
    accepts = "mt_accepts(%s, %s, %s, {t}, {r}, {e})" % (A, SEC, LEAVES)
    add(Contract("MerkleTree.get_proof_of_inclusion", {"self": "MerkleTree", "key": "bytes"}, modifies=("self.levels", "self.is_ready"),
                 entry=["broadcast use ax_ascii_enc; if %s { lemma_path_text(%s, %s->0, %s, %s); lemma_complete(%s, %s, %s, %s->0, $key); }" % (
                     inc, A, LEVELS, LEAVES, val, A, SEC, LEAVES, LEVELS)],
                 loops=["{b:Seq<(Seq<int>, Seq<int>)>} =~= %s.subrange(0, {@})" % path],
                 returns=Ret("MTProof", ensures={
                     "present": inc, "the tree is unchanged": "$self'.is_ready && $self'.levels == %s" % LEVELS,
                     "type": "$result._type =~= seq![77int, 84int, 45int, 80int, 79int, 73int]",
                     "time": "is_ascii($result._timestamp)", "key": "$result._target_key =~= $key", "root": "$result._root_hash =~= hexs(%s)" % ROOT,
                     "siblings": "$result._proof =~= entries_of(%s)" % path,
                     "accepted": accepts.format(t="$result._target_key", r="$result._root_hash", e="$result._proof")}),
                 raises=[Rais(("ValueError",), {"no such leaf, or not ready": "!" + inc}, modifies=("self.levels", "self.is_ready"))]))
    folds = "fold(%s, {t}, {p})" % A
    add(Contract("MerkleTools.verify_proof_of_inclusion", {"self": BOTH, "proof": "list[onekey]", "target_hash": "bytes", "merkle_root": "bytes"},
                 entry=["lemma_fold_step(%s, $target_hash, $proof);" % A],
                 loops=["{h:Seq<int>} =~= fold(%s, $target_hash, $proof.subrange(0, {@})) && steps_ok($proof.subrange(0, {@})) "
                        "&& folded(%s, $target_hash, $proof.subrange(0, {@}))" % (A, A)],
                 returns=Ret("bool", ensures={
                     "proper steps": "steps_ok($proof)",
                     "combining the target with the siblings gives the root": "$result == (%s == $merkle_root)" % folds.format(t="$target_hash", p="$proof"),
                     "hashed on the way": "folded(%s, $target_hash, $proof)" % A}),
                 raises=[Rais(("KeyError", "ValueError"), {"improper steps": "!steps_ok($proof)"})]))
    acc = accepts.format(t="$proof._target_key", r="$proof._root_hash", e="$proof._proof")
    add(Contract("MerkleTree.verify_proof_of_inclusion", {"self": "MerkleTree", "proof": "MTProof"}, modifies=("self.levels", "self.is_ready"),
                 loops=["{s:Seq<(Seq<int>, Seq<int>)>} =~= steps_of($proof._proof).subrange(0, {@})", "step_entries($proof._proof.subrange(0, {@}))"],
                 entry=["broadcast use ax_ascii_dec, lemma_steps_read, lemma_step_at; lemma_step_entries($proof._proof);"],
                 returns=Ret("bool", ensures={
                     "accepts exactly the proofs that give the current root": "$result == %s" % acc,
                     "hashed on the way": "$result ==> folded(%s, leafval(%s, %s, $proof._target_key), steps_of($proof._proof)) "
                                          "&& (%s ==> HU(%s, $proof._target_key))" % (A, A, SEC, SEC, A)}),
                 raises=[Rais(("*",), {"not acceptable": "!" + acc}, modifies=("self.levels", "self.is_ready"))]))
