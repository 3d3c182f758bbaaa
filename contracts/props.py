"""Which contracts state each property.  The contracts of everything these functions call are
verified with them (the cone is closed at run time)."""

PROPS = {
    "C11": {
        "roots": ["NibblePath.__init__", "NibblePath.__init__#default", "NibblePath.__len__", "NibblePath.at",
                  "NibblePath.at#out-of-range", "NibblePath.__eq__", "NibblePath.starts_with",
                  "NibblePath.consume", "NibblePath._create_new", "NibblePath._create_new#chained",
                  "NibblePath.common_prefix", "NibblePath.combine", "NibblePath.encode",
                  "NibblePath.encode#default", "NibblePath.decode_with_type", "NibblePath.decode"],
    },
    "C10": {
        "roots": ["Node.into_reference", "Node.decode", "Leaf.encode", "Extension.encode", "Branch.encode",
                  "Leaf.__init__", "Extension.__init__", "Branch.__init__", "_prepare_reference_for_usage",
                  "_prepare_reference_for_usage#bytes", "_prepare_reference_for_encoding"],
    },
}

MAP = ["MPT.get", "MPT.update", "MPT.delete", "MPT.contains", "MPT.contains#form", "MPT.__contains__", "MPT.__getitem__",
       "MPT.__setitem__", "MPT.__delitem__", "MPT.__init__", "MPT.__init__#default"]
PROPS.update({
    "C01": {"roots": MAP + ["MPT.secure"], "lemmas": ["lemma_map_ins", "lemma_map_del"]},
    "C02": {"roots": ["MPT.root_hash", "MPT.root", "MPT.__eq__", "MPT.__eq__#other", "MPT.__hash__", "MPT.update", "MPT.delete",
                      "MPT.__setitem__", "MPT.__delitem__", "MPT.__init__", "MPT.__init__#default"],
            "lemmas": ["lemma_fingerprint", "lemma_rhash"]},
    "C03": {"roots": MAP + ["MPT.root_hash", "MPT.root", "MPT.__hash__", "MPT.__eq__", "MPT.__len__"]},
    "C04": {"roots": MAP, "lemmas": ["lemma_older"]},
})

PROPS.update({
    "C05": {"roots": ["MPT.get_proof_of_inclusion", "MPT.verify_proof_of_inclusion"],
            "note": "completeness: the proof generated is honest_poi for the root reference, and honest_poi is accepted by every trie with that root reference (no stored nodes needed)"},
    "C06": {"roots": ["MPT.verify_proof_of_inclusion"]},
    "C07": {"roots": ["MPT.get_proof_of_exclusion", "MPT.verify_proof_of_exclusion"]},
    "C08": {"roots": ["MPT.verify_proof_of_exclusion"]},
})
PROPS["C03"]["roots"] += ["MPT.get_proof_of_inclusion", "MPT.verify_proof_of_inclusion", "MPT.get_proof_of_exclusion",
                          "MPT.verify_proof_of_exclusion"]

PROPS["C09"] = {"roots": ["MPT.encode", "MPT.decode"],
                "note": "round trip: what decode returns is a function of the bytes, and encode establishes that this function gives back storage, root and mode"}
PROPS["C03"]["roots"] += ["MPT.encode"]

PROPS["C25"] = {"roots": ["keccak_hash", "keccak_hash#form", "keccak_hash#not-bytes", "keccak_hash_list", "keccak_hash_list#form", "keccak_hash_list#not-bytes",
                          "Utils.hash_data", "Utils.hash_data#default", "Utils.hash_data#not-bytes",
                          "Utils.sha256", "Utils.sha256#default", "Utils.sha256#not-bytes",
                          "Utils.sha512", "Utils.sha512#default", "Utils.sha512#not-bytes"]}

LEAVES = ["MerkleTools.__init__", "MerkleTree.__init__", "MerkleTools.reset_tree", "MerkleTree.reset_tree", "MerkleTools.add_leaf", "MerkleTree.put",
          "MerkleTree.put#not-bytes", "MerkleTree.put_list"]
PROPS.update({
    "C16": {"roots": LEAVES + ["MerkleTools.make_tree", "MerkleTree.make_tree", "MerkleTools.get_merkle_root", "MerkleTree.get_merkle_root",
                               "MerkleTools.get_leaf", "MerkleTree.get", "MerkleTools.__len__", "MerkleTree.get_count",
                               "MerkleTools.get_proof_of_inclusion", "MerkleTree.get_proof_of_inclusion"]},
    "C17": {"roots": LEAVES + ["MerkleTools.make_tree", "MerkleTree.make_tree", "MerkleTree.get_merkle_root", "MerkleTools.get_proof_of_inclusion",
                               "MerkleTree.get_proof_of_inclusion", "MerkleTools.verify_proof_of_inclusion", "MerkleTree.verify_proof_of_inclusion"],
            "lemmas": ["lemma_complete"],
            "note": "completeness: the proof generated satisfies mt_accepts, and the tree accepts exactly that"},
    "C18": {"roots": ["MerkleTools.verify_proof_of_inclusion", "MerkleTree.verify_proof_of_inclusion", "MerkleTree.get_merkle_root"],
            "lemmas": ["lemma_accepts", "lemma_one_target"]},
})

PROPS["C15"] = {"roots": ["DataReference.__init__", "DataReference.__init__#key-not-bytes", "DataReference.__init__#data-not-bytes", "DataReference.__hash__",
                          "DataReference.key", "DataReference.data", "DataReference.hash", "DataReference.encode", "DataReference.decode",
                          "DataReference.decode#not-bytes", "DataReference.__eq__", "DataReference.__eq__#other"],
                "lemmas": ["lemma_dref_inj", "lemma_kdhash"]}

def both(cls, *names):
    return ["%s.%s" % (cls, n) for n in names]


INIT = both("EMPT", "__init__", "__init__#own-data", "__init__#own-nodes", "__init__#own-nodesown-data")
EMAP = INIT + both("EMPT", "get", "__getitem__", "update", "__setitem__", "update#not-a-value", "__setitem__#not-a-value", "delete", "__delitem__",
                   "contains", "__contains__", "__len__", "__iter__")
PROPS.update({
    "C12": {"roots": EMAP, "lemmas": ["lemma_emap_keys", "lemma_emap_refs", "lemma_emap_put", "lemma_emap_del", "lemma_empty_emap"]},
    "C13": {"roots": both("EMPT", "get", "__getitem__", "update", "__setitem__", "delete", "__delitem__") + ["DataReference.__eq__"],
            "lemmas": ["lemma_emap_refs", "lemma_dref_inj", "lemma_kdhash"]},
    "C14": {"roots": INIT + both("EMPT", "get_root_trie", "get_sparse_trie", "build_trie", "root", "root_hash", "secure", "get_reference", "update", "delete",
                                 "get_proof_of_inclusion", "get_proof_of_exclusion", "verify_proof_of_inclusion", "verify_proof_of_exclusion")
            + both("SparseEMPT", "__init__", "__init__#own-nodes", "get_root_trie", "root", "root_hash", "get_reference", "update", "__setitem__",
                   "update#not-a-value", "__setitem__#not-a-value", "delete", "__delitem__", "contains", "__contains__", "__getitem__",
                   "get_proof_of_inclusion", "get_proof_of_exclusion", "verify_proof_of_inclusion", "verify_proof_of_exclusion",
                   "encode_rlp", "decode_rlp")
            + both("RootEMPT", "__init__", "root_hash", "secure", "verify_proof_of_inclusion", "verify_proof_of_exclusion", "encode_rlp", "decode_rlp"),
            "lemmas": ["lemma_view", "lemma_same_data", "lemma_same_update"],
            "note": "same verdicts: the contracts of all verify functions give the same function of root, mode and proof (that MPT's depends on nothing else is an obligation: noreads)"},
})

PROOF_FIELDS = ("target_key-not-bytes", "root_hash-not-bytes", "proof-not-tuple", "proof_type-not-bytes")
PROPS["C19"] = {"roots": both("Proof", "__init__", *["__init__#" + f for f in PROOF_FIELDS], "__eq__", "__eq__#other", "encode_json", "decode_json", "encode_rlp", "decode_rlp")
                + ["MerkleTree.get_proof_of_inclusion"],
                "lemmas": ["lemma_tree_text", "lemma_py_entries", "lemma_hash_number", "lemma_prlp"],
                "note": "round trip: decoding is specified on exactly the texts and bytes that encoding is shown to give"}

KINDS = ("RsaKeyPair", "RsaAuthKeyPair", "RsaEncKeyPair")
NEW_PAIRS = [c + ".__init__" + v for c in KINDS for v in ("", "#no-nickname", "#not-text")]
KEYS = NEW_PAIRS + both("RsaKeyPair", "public_key", "public_key_string", "nickname", "generate_keypair", "generate_keypair#default")
PROPS.update({
    "C20": {"roots": KEYS + both("RsaKeyPair", "sign", "signature_valid", "signature_valid#own-key", "signature_valid#no-key", "sign#not-bytes",
                                 "signature_valid#data-not-bytes", "signature_valid#signature-not-bytes", "signature_valid#public_key-not-bytes"),
            "lemmas": ["lemma_signature"]},
    "C21": {"roots": KEYS + both("RsaKeyPair", "encrypt", "decrypt", "sign", "sign#explicit", "signature_valid", "signature_valid#explicit",
                                 "encrypt#not-bytes", "decrypt#not-bytes", "encrypt#key-not-bytes", "decrypt#key-not-bytes"),
            "lemmas": ["lemma_message"]},
    "C22": {"roots": KEYS + both("RsaKeyPair", "to_key_string", "to_key_file", "to_key_string#not-text", "to_key_file#not-text", "to_key_file#file-not-text",
                                 *["from_key_%s#%s" % (w, c) for c in KINDS
                                   for w in ("string", "file")], *["from_key_string#%s-%snot-text" % (c, p) for c in KINDS for p in ("", "passphrase-")],
                                 "__eq__", "__eq__#RsaAuthKeyPair", "__eq__#RsaEncKeyPair", "__eq__#RsaKeyPair-RsaAuthKeyPair-RsaEncKeyPair-other",
                                 "__eq__#RsaAuthKeyPair-other", "__eq__#RsaEncKeyPair-other", "__hash__"),
            "lemmas": ["lemma_saved"],
            "note": "the file system is a ghost map from names to text; a file that cannot be opened, read or written raises OSError"},
    "C23": {"roots": both("Utils", *["%scrypt%s" % (d, v) for d in ("en", "de") for v in ("", "#not-bytes", "#not-text")])},
    "C24": {"roots": ["RsaAuthKeyPair.encrypt", "RsaAuthKeyPair.decrypt", "RsaEncKeyPair.sign", "RsaEncKeyPair.signature_valid",
                      "RsaEncKeyPair.signature_valid#default"]
            + both("Utils", *["rsa_key_valid" + v for v in ("", "#verdict", "#default", "#not-bytes", "#kind-not-text", "#flag-not-bool")])},
})

NOT_APPLICABLE = {}
