"""Contracts of pymt.mpt (properties C01-C09)."""
from pyv.spec import ClassSpec, Contract, Rais, Ret

LIBS = ["base", "nib", "codec", "tree", "trie", "mpt"]
NODES = ("Leaf", "Extension", "Branch")
S = "$self._storage"
S2 = "$self'._storage"
CA = {"content-addressed storage": "ca(%s)" % S}


def followable(ref):
    return {"reference can be followed": "vr0(%s, %s)" % (S, ref)}



GROWS = {"storage only grows": "ext(%s, %s)" % (S, S2),
         "storage stays content-addressed": "ca(%s)" % S2}
EXT = "broadcast use lemma_vref_ext, lemma_ext_trans;"


def walk_loop(*inv):
    """For a walk down the trie written as a loop."""
    return {"loops": ["vr0(%s, {r:Seq<int>})" % S] + list(inv), "measures": ["height(t0({r:Seq<int>}))"],
            "steps": ["lemma_at(%s, {r:Seq<int>});" % S]}


def setup(spec):
    spec.libs = LIBS
    spec.classes["MPT"] = ClassSpec({"_storage": "dict[bytes,bytes]", "_root": "opt[bytes]", "_secure": "bool"})
    A = spec.add
    A(Contract("MPT._get_node", {"self": "MPT", "node_ref": "bytes"},
               returns=[Ret(k, ensures={"reference resolves": "resolv(%s, $node_ref)" % S,
                                        "the node referred to": "$result == dec(raw_of(%s, $node_ref))" % S}) for k in ("DecodedLeaf", "Extension", "DecodedBranch")],
               raises=[Rais(("*",), {"the reference leads nowhere": "!resolv(%s, $node_ref)" % S})]))
    A(Contract("MPT._get", {"self": "MPT", "node_ref": "bytes", "path": "NibblePath"},
               requires={**CA, **followable("$node_ref")},
               entry=["lemma_at(%s, $node_ref); lemma_ca_emptyh(%s); lemma_emptyh(); reveal_with_fuel(lookup, 2);" % (S, S)],
               decreases="height(t0($node_ref))", rec="mpt.get",
               **walk_loop("lookup(t0({r:Seq<int>}), {p:Seq<int>}) == lookup(t0($node_ref), $path)"),
               modifies=("path._offset",),
               returns=[Ret(k, ensures={"the value stored under the path":
                                        "lookup(t0($node_ref), $path) == Some($result.data)"}) for k in ("DecodedLeaf", "DecodedBranch")],
               raises=[Rais(("*",), {"the path has no value": "lookup(t0($node_ref), $path) is None"},
                            modifies=("path._offset",))]))
    A(Contract("MPT._contains", {"self": "MPT", "node_ref": "bytes", "path": "NibblePath"},
               requires={**CA, **followable("$node_ref")},
               entry=["lemma_at(%s, $node_ref); lemma_ca_emptyh(%s); lemma_emptyh(); reveal_with_fuel(lookup, 2);" % (S, S)],
               decreases="height(t0($node_ref))", rec="mpt.contains",
               **walk_loop("lookup(t0({r:Seq<int>}), {p:Seq<int>}) == lookup(t0($node_ref), $path)"),
               modifies=("path._offset",),
               returns=[Ret("bool", ensures={"only for an empty trie": "!$result && troot($self._root) is Nil"}),
                        Ret("Leaf", ensures={"the path has a value exactly if it is the leaf's":
                                             "lookup(t0($node_ref), $path) is Some <==> $result.path =~= $path'"}),
                        Ret("Extension", ensures={"the path has no value": "lookup(t0($node_ref), $path) is None"}),
                        Ret("Branch", ensures={"the path has a value exactly if it ends in a branch with one":
                                               "lookup(t0($node_ref), $path) is Some <==> $path'.len() == 0 && $result.data.len() > 0"})]
               ,
               raises=[Rais(("*",), {"the trie is empty": "t0($node_ref) is Nil && $self._root is Some && $self._root->0 != emptyh()"}, modifies=("path._offset",))]))
    A(Contract("MPT._store_node", {"self": "MPT", "node": "Leaf|Extension|Branch"},
               requires={**CA, "canonical node": "vnode(%s, $node)" % S},
               entry=["broadcast use ax_keccak_len; lemma_vnode(%s, $node);" % S],
               modifies=("self._storage",),
               returns=Ret("bytes", value="nref($node)", ensures={
                   "hashed when long": "enc($node).len() < 32 || U(enc($node))",
                   "stored under its hash": "%s =~= stored(%s, $node)" % (S2, S)},
                   hints=["lemma_store(%s, $node); lemma_kref($result);" % S])))
    BR = {"references can be followed": "refs_ok(%s, $branches)" % S, **CA}
    A(Contract("MPT._create_branch_leaf", {"self": "MPT", "path": "NibblePath", "value": "byteslike", "branches": "list[bytes]"},
               requires={**BR, "value is not empty": "$value.len() > 0"},
               entry=["lemma_slots($branches); %s" % EXT],
               modifies=("path._offset", "branches", "self._storage"),
               returns=Ret("none", ensures={
                   **GROWS, "references can be followed": "refs_ok(%s, $branches')" % S2,
                   "adds the leaf": "trees_of($branches') =~= put_leaf(trees_of($branches), $path, $value)",
                   "fills the slot": "$path.len() > 0 ==> 0 <= $path[0] < 16 && $branches'[$path[0]].len() > 0",
                   "keeps the other slots": "forall|i: int| 0 <= i < 16 && ($path.len() == 0 || i != $path[0]) ==> #[trigger] $branches'[i] == $branches[i]"})))
    A(Contract("MPT._create_branch_extension", {"self": "MPT", "path": "NibblePath", "next_ref": "bytes", "branches": "list[bytes]"},
               requires={**BR, "reference of a branch": "vref(%s, $next_ref) && $next_ref.len() > 0 && tree_of($next_ref) is Br" % S,
                         "path is not empty": "$path.len() > 0"},
               entry=["lemma_slots($branches); lemma_kref($next_ref); %s" % EXT],
               modifies=("path._offset", "branches", "self._storage"),
               returns=Ret("none", ensures={
                   **GROWS, "references can be followed": "refs_ok(%s, $branches')" % S2,
                   "adds the subtree": "trees_of($branches') =~= put_ext(trees_of($branches), $path, tree_of($next_ref))",
                   "fills the slot": "0 <= $path[0] < 16 && $branches'[$path[0]].len() > 0",
                   "keeps the other slots": "forall|i: int| 0 <= i < 16 && i != $path[0] ==> #[trigger] $branches'[i] == $branches[i]"})))
    NEWREF = {"result can be followed": "vref(%s, $result) && $result.len() > 0" % S2}
    A(Contract("MPT._create_branch_node", {"self": "MPT", "path_a": "NibblePath", "value_a": "byteslike",
                                           "path_b": "NibblePath", "value_b": "byteslike"},
               requires={**CA, "values are not empty": "$value_a.len() > 0 && $value_b.len() > 0",
                         "the paths diverge at once": "$path_a.len() + $path_b.len() > 0 && ($path_a.len() > 0 && $path_b.len() > 0 ==> $path_a[0] != $path_b[0])"},
               entry=["broadcast use lemma_put_leaf_leaf; lemma_slots_at($path_a[0], $path_b[0]); %s" % EXT],
               modifies=("path_a._offset", "path_b._offset", "self._storage"),
               returns=Ret("bytes", ensures={
                   **GROWS, **NEWREF,
                   "branch of the two values": "tree_of($result) == two($path_a, $value_a, $path_b, $value_b)"})))
    A(Contract("MPT._update", {"self": "MPT", "node_ref": "opt[bytes]", "path": "NibblePath", "value": "byteslike"},
               requires={**CA, "reference can be followed": "tok(%s, $node_ref)" % S, "value is not empty": "$value.len() > 0"},
               entry=["broadcast use lemma_cprefix_sym, lemma_put_leaf_ext; lemma_at(%s, $node_ref->0); lemma_ca_emptyh(%s); lemma_emptyh(); lemma_upd(dec(raw_of(%s, $node_ref->0)), $path); reveal_with_fuel(ins, 2); %s" % (S, S, S, EXT)],
               decreases="height(troot($node_ref))", rec="mpt.update",
               modifies=("path._offset", "self._storage"),
               returns=Ret("bytes", ensures={
                   **GROWS, **NEWREF,
                   "the value is inserted": "tree_of($result) == ins(troot($node_ref), $path, $value)"})))
    USELESS = "tuple[enum[USELESS_BRANCH],tuple[NibblePath,bytes]]"
    MOVED = {"result can be followed": "vref(%s, $result.1.1) && $result.1.1.len() > 0" % S2,
             "leaf or extension": "!(tree_of($result.1.1) is Br)"}
    A(Contract("MPT._build_new_node_from_last_branch", {"self": "MPT", "branches": "list[bytes]"},
               requires={**BR, "one filled slot": "exists|i: int| 0 <= i < $branches.len() && #[trigger] rsole($branches, i)"},
               entry=["lemma_sole_at(%s, $branches); %s" % (S, EXT)],
               loops=["forall|j: int| 0 <= j < {@} ==> (#[trigger] $branches[j]).len() == 0",
                      "forall|j: int| 0 <= j < {i:int} ==> (#[trigger] $branches[j]).len() == 0",
                      "{u:Seq<int>}.len() > 0 ==> 0 <= {u:Seq<int>}[0] < $branches.len() && $branches[{u:Seq<int>}[0]].len() > 0",
                      "{u:Seq<int>}.len() == 0 ==> forall|j: int| 0 <= j < {@} ==> (#[trigger] $branches[j]).len() == 0"],
               modifies=("self._storage",),
               returns=Ret(USELESS, ensures={
                   **GROWS, **MOVED,
                   "the only subtree moves up": "tree_of($result.1.1) == norm_sole($branches)"},
                   hints=["lemma_at(%s, $result.1.1);" % S2])))
    PRESENT = {"the path has a value": "lookup(t0($node_ref), $path) is Some"}
    A(Contract("MPT._delete", {"self": "MPT", "node_ref": "bytes", "path": "NibblePath"},
               requires={**CA, **followable("$node_ref")},
               entry=["lemma_at(%s, $node_ref); lemma_ca_emptyh(%s); lemma_emptyh(); "
                      "lemma_del_at(%s, dec(raw_of(%s, $node_ref)), $path); "
                      "reveal_with_fuel(lookup, 2); reveal_with_fuel(del, 2); broadcast use lemma_cnt_all, lemma_sum_push; %s" % (S, S, S, S, EXT)],
               decreases="height(t0($node_ref))", rec="mpt.delete",
               loops=["{c:int} == cnt_upto({#:Seq<Seq<int>>}, {@})", "{c:int} == {#:Seq<Seq<int>>}.len() - ({@} - cnt_upto({#:Seq<Seq<int>>}, {@}))",
                      "{l:Seq<Seq<int>>}.len() == cnt_upto({#:Seq<Seq<int>>}, {@})",
                      "{l:Seq<int>}.len() == cnt_upto({#:Seq<Seq<int>>}, {@})", "sum_int({l:Seq<int>}) == cnt_upto({#:Seq<Seq<int>>}, {@})"],
               modifies=("path._offset", "self._storage"),
               returns=[Ret("tuple[enum[DELETED],none]", ensures={**PRESENT, **GROWS, "nothing is left": "del(t0($node_ref), $path) is Nil"}),
                        Ret("tuple[enum[UPDATED],bytes]", ensures={
                            **PRESENT, **GROWS, "result can be followed": "vref(%s, $result.1) && $result.1.len() > 0" % S2,
                            "the value is deleted": "tree_of($result.1) == del(t0($node_ref), $path)",
                            "a branch stays a branch": "t0($node_ref) is Br ==> tree_of($result.1) is Br"}),
                        Ret(USELESS, ensures={
                            **PRESENT, **GROWS, **MOVED,
                            "the value is deleted": "tree_of($result.1.1) == del(t0($node_ref), $path)"},
                            hints=["lemma_at(%s, $result.1.1);" % S2])],
               raises=[Rais(("*",), {"the path has no value": "lookup(t0($node_ref), $path) is None"},
                            modifies=("path._offset",))]))
    # ------------------------------------------------------------ the trie as a map
    R, R2, SEC = "$self._root", "$self'._root", "$self._secure"
    STATE = {"trie state": "state(%s, %s, %s)" % (S, R, SEC)}
    STAYS = {"trie state": "state(%s, %s, %s)" % (S2, R2, SEC)}
    OLDER = {**GROWS, "earlier roots stay readable": "older(%s, %s)" % (S, S2)}
    for root, var in (("opt[bytes]", ""), ("none", "default")):
        ps = {"self": "new[MPT]", "storage": "dict[bytes,bytes]", "root": root, "secure": "bool"}
        if var:
            del ps["root"], ps["secure"]
        A(Contract("MPT.__init__", ps, variant=var, modifies=("self",),
                   returns=Ret("none", ensures={
                       "uses the storage": "$self'._storage == $storage",
                       "opens the root": "$self'._root == %s" % ("Some(emptyh())" if var else "(match $root { None => Some(emptyh()), Some(b) => Some(b) })"),
                       "mode": "$self'._secure == %s" % ("false" if var else "$secure")},
                       shares={"self._storage": "storage"})))
    spec.inline.add("MPT.__init__")
    ENTRY = "lemma_emptyh(); lemma_ca_emptyh(%s);" % S
    A(Contract("MPT.root_hash", {"self": "MPT"}, noreads=("self._storage",),
               returns=Ret("bytes", value="rhash(%s)" % R, ensures={"hashed": "hashed(%s)" % R, "digest size": "$result.len() == 32"})))
    A(Contract("MPT.root", {"self": "MPT"}, noreads=("self._storage",), returns=Ret("opt[bytes]", value=R)))
    A(Contract("MPT.get", {"self": "MPT", "encoded_key": "bytes"}, requires=STATE,
               entry=["broadcast use ax_keccak_len; " + ENTRY],
               returns=Ret("bytes", ensures={"the value stored under the key": "content(%s, %s, $encoded_key) == Some($result)" % (SEC, R),
                                               "key": "keyok(%s, $encoded_key)" % SEC}),
               raises=[Rais(("*",), {"the key has no value": "content(%s, %s, $encoded_key) is None" % (SEC, R)})]))
    A(Contract("MPT.contains", {"self": "MPT", "key": "bytes", "hash_key": "bool"}, requires=STATE, variant="form",
               entry=["broadcast use ax_keccak_len; " + ENTRY],
               returns=Ret("bool", value="(content(%s && $hash_key, %s, $key) is Some)" % (SEC, R),
                           ensures={"key": "$result ==> keyok(%s && $hash_key, $key)" % SEC})))
    A(Contract("MPT.contains", {"self": "MPT", "key": "bytes"}, requires=STATE,
               entry=["broadcast use ax_keccak_len; " + ENTRY],
               returns=Ret("bool", value="(content(%s, %s, $key) is Some)" % (SEC, R), ensures={"key": "$result ==> keyok(%s, $key)" % SEC})))
    A(Contract("MPT.update", {"self": "MPT", "encoded_key": "bytes", "encoded_value": "bytes"},
               requires={**STATE, "value is not empty": "$encoded_value.len() > 0"},
               entry=["broadcast use ax_keccak_len; " + ENTRY],
               exit=["lemma_map_ins(%s, %s, %s, $encoded_key, $encoded_value); lemma_kref(%s->0); lemma_older(%s, %s);" % (S, SEC, R, R2, S, S2)],
               modifies=("self._storage", "self._root"),
               returns=Ret("none", ensures={**STAYS, **OLDER, "key": "keyok(%s, $encoded_key)" % SEC,
                                            "stores the value and nothing else": "changed(%s, %s, %s, $encoded_key, Some($encoded_value))" % (SEC, R, R2)})))
    A(Contract("MPT.delete", {"self": "MPT", "encoded_key": "bytes"}, requires=STATE,
               entry=["broadcast use ax_keccak_len; " + ENTRY],
               exit=["lemma_map_del(%s, %s, %s, $encoded_key); lemma_kref(%s->0); lemma_older(%s, %s);" % (S, SEC, R, R2, S, S2)],
               modifies=("self._storage", "self._root"),
               returns=Ret("none", ensures={**STAYS, **OLDER, "key": "keyok(%s, $encoded_key)" % SEC,
                                            "the key had a value": "content(%s, %s, $encoded_key) is Some" % (SEC, R),
                                            "deletes it and nothing else": "changed(%s, %s, %s, $encoded_key, None)" % (SEC, R, R2)}),
               raises=[Rais(("*",), {"the key has no value": "content(%s, %s, $encoded_key) is None" % (SEC, R)})]))
    A(Contract("MPT.__contains__", {"self": "MPT", "encoded_key": "bytes"}, requires=STATE,
               returns=Ret("bool", value="(content(%s, %s, $encoded_key) is Some)" % (SEC, R))))
    A(Contract("MPT.__getitem__", {"self": "MPT", "encoded_key": "bytes"}, requires=STATE,
               returns=Ret("bytes", ensures={"the value stored under the key": "content(%s, %s, $encoded_key) == Some($result)" % (SEC, R),
                                               "key": "keyok(%s, $encoded_key)" % SEC}),
               raises=[Rais(("*",), {"the key has no value": "content(%s, %s, $encoded_key) is None" % (SEC, R)})]))
    A(Contract("MPT.__setitem__", {"self": "MPT", "encoded_key": "bytes", "encoded_value": "bytes"},
               requires={**STATE, "value is not empty": "$encoded_value.len() > 0"},
               modifies=("self._storage", "self._root"),
               returns=Ret("none", ensures={**STAYS, **OLDER, "key": "keyok(%s, $encoded_key)" % SEC,
                                            "stores the value and nothing else": "changed(%s, %s, %s, $encoded_key, Some($encoded_value))" % (SEC, R, R2)})))
    A(Contract("MPT.__delitem__", {"self": "MPT", "encoded_key": "bytes"}, requires=STATE,
               modifies=("self._storage", "self._root"),
               returns=Ret("none", ensures={**STAYS, **OLDER, "key": "keyok(%s, $encoded_key)" % SEC,
                                            "the key had a value": "content(%s, %s, $encoded_key) is Some" % (SEC, R),
                                            "deletes it and nothing else": "changed(%s, %s, %s, $encoded_key, None)" % (SEC, R, R2)}),
               raises=[Rais(("*",), {"the key has no value": "content(%s, %s, $encoded_key) is None" % (SEC, R)})]))
    A(Contract("MPT.__hash__", {"self": "MPT"}, entry=["lemma_emptyh(); broadcast use ax_keccak_len, ax_hex_value;"],
               returns=Ret("int", value="hex_value(hexs(keccak(rhash(%s))))" % R, ensures={"hashed": "hashed(%s) && U(rhash(%s))" % (R, R)})))
    O = "$other._root"
    A(Contract("MPT.__eq__", {"self": "MPT", "other": "MPT"},
               exit=["lemma_hash_number(rhash(%s), rhash(%s)); lemma_fingerprint(%s, %s, $other._storage, %s, %s);" % (R, O, S, R, O, SEC)],
               returns=Ret("bool", value="(rhash(%s) == rhash(%s))" % (R, O), ensures={
                   "equal exactly if the contents are": "state(%s, %s, %s) && state($other._storage, %s, $other._secure) && %s == $other._secure ==> ($result <==> same_content(%s, %s, %s))" % (S, R, SEC, O, SEC, SEC, R, O)})))
    A(Contract("MPT.__eq__", {"self": "MPT", "other": "bytes|int|none|str"}, variant="other",
               returns=Ret("bool", value="false")))
    A(Contract("MPT.__len__", {"self": "MPT"}, returns=Ret("int")))
    A(Contract("MPT.secure", {"self": "MPT"}, returns=Ret("bool", value=SEC)))
