PRE = """import sys
from pymt.mpt import MPT
from pymt.proof import Proof
from pymt.utils.hash import keccak_hash
def ok(f, *a):
    try:
        return f(*a)
    except Exception as e:
        return None
"""
BUGS = [
 {"id": "c05-embedded-threshold", "property": "C05",
  "needs": "a node of exactly 31 encoded bytes on the path, embedded in its parent",
  "breaks": "the verifier looks the 31-byte embedded node up among the proof nodes keyed by hash-sized references only if present, otherwise rejects; generation leaves it out",
  "edits": [("mpt.py", """        # If we've found a leaf, it's either the leaf we're
            # looking for or wrong leaf.
            if node.path == path:
                proof.append(node.encode())
                return proof""", """        # If we've found a leaf, it's either the leaf we're
            # looking for or wrong leaf.
            if node.path == path:
                if len(proof) == 0 or len(node.encode()) >= 31:
                    proof.append(node.encode())
                return proof"""),
            ("mpt.py", """                # Return without hashing
""", """                # Return without hashing
""")],
  "demo": ""},
 {"id": "c05-other-verifier-root", "property": "C05",
  "needs": "a verifier other than the prover, holding the same root but no stored nodes",
  "breaks": "the walk of the verifier starts from a stored node, so a trie without storage cannot verify",
  "edits": [("mpt.py", """        valid = self._verify_proof_of_inclusion(
            self._root, NibblePath(proof.target_key), proof_storage
        )""", """        valid = self._verify_proof_of_inclusion(
            self._get_node(self._root), NibblePath(proof.target_key), proof_storage
        )""")],
  "demo": PRE + """t = MPT({})
for i in range(40):
    t.update(b'key-number-%d' % i, b'value %d' % i * 5)
p = t.get_proof_of_inclusion(b'key-number-7')
sys.exit(0 if ok(t.verify_proof_of_inclusion, p) is True and ok(MPT({}, root=t.root()).verify_proof_of_inclusion, p) is True else 1)
"""},
 {"id": "c05-extension-not-in-proof", "property": "C05",
  "needs": "a trie with an extension whose reference is hashed below the root",
  "breaks": "extensions below the root are left out of inclusion proofs",
  "edits": [("mpt.py", """                rest_path = path.consume(len(node.path))
                proof.append(node.encode())
                return self._get_proof_of_inclusion(node.next_ref, rest_path, proof)""",
"""                rest_path = path.consume(len(node.path))
                if len(rest_path) % 2 == 0 or len(proof) == 0:
                    proof.append(node.encode())
                return self._get_proof_of_inclusion(node.next_ref, rest_path, proof)""")],
  "demo": PRE + """t = MPT({})
v = b'v' * 40
for k in (b'\\x11\\x11\\x11', b'\\x11\\x11\\x22', b'\\x11\\x22\\x22', b'\\x22', b'\\x11\\x11\\x11\\x55\\x66', b'\\x11\\x11\\x11\\x55\\x67'):
    t.update(k, v)
bad = 0
for k in (b'\\x11\\x11\\x11', b'\\x11\\x11\\x22', b'\\x11\\x22\\x22', b'\\x22', b'\\x11\\x11\\x11\\x55\\x66', b'\\x11\\x11\\x11\\x55\\x67'):
    if ok(MPT({}, root=t.root()).verify_proof_of_inclusion, t.get_proof_of_inclusion(k)) is not True:
        bad = 1
sys.exit(bad)
"""},
 {"id": "c06-leaf-prefix", "property": "C06",
  "needs": "a proof retargeted to a key that extends, or stops short of, the proven leaf",
  "breaks": "the verifier accepts when the leaf's path only starts with the rest of the target",
  "edits": [("mpt.py", """        if type(node) is Leaf:
            # If we've found a leaf, it's either the leaf we're
            # looking for or wrong leaf.
            if node.path == path:
                return True""", """        if type(node) is Leaf:
            # If we've found a leaf, it's either the leaf we're
            # looking for or wrong leaf.
            if node.path.starts_with(path):
                return True""")],
  "demo": PRE + """t = MPT({})
t.update(b'\\x11\\x11\\x11', b'a' * 40); t.update(b'\\x21\\x11', b'b' * 40)
p = t.get_proof_of_inclusion(b'\\x11\\x11\\x11')
q = Proof(target_key=b'\\x11\\x11', root_hash=p.trie_root, proof=p.proof, proof_type=p.type)
sys.exit(1 if ok(t.verify_proof_of_inclusion, q) else 0)
"""},
 {"id": "c06-forged-node-keys", "property": "C06",
  "needs": "a forged proof whose nodes are re-encoded: the first is genuine, a later one is filed under a reference that is not its hash",
  "breaks": "the verifier falls back on the next proof node when a referenced node is missing, so a forged node is walked",
  "edits": [("mpt.py", """        if not (
            isinstance(node_ref, Leaf)
            or isinstance(node_ref, Extension)
            or isinstance(node_ref, Branch)
        ):
            if len(node_ref) == 32:
                try:
                    raw_node = proof_storage[node_ref]
                except KeyError:
                    return False""", """        if not (
            isinstance(node_ref, Leaf)
            or isinstance(node_ref, Extension)
            or isinstance(node_ref, Branch)
        ):
            if len(node_ref) == 32:
                try:
                    raw_node = proof_storage[node_ref]
                except KeyError:
                    if len(proof_storage) < 2:
                        return False
                    raw_node = list(proof_storage.values())[-1]""")],
  "demo": PRE + """from pymt.utils.node import Leaf
from pymt.utils.nibble_path import NibblePath
t = MPT({})
t.update(b'\\x11\\x11\\x11', b'a' * 40); t.update(b'\\x21\\x11', b'b' * 40)
p = t.get_proof_of_inclusion(b'\\x11\\x11\\x11')
forged = Leaf(NibblePath(b'\\x11\\x33', 1), b'z' * 40).encode()
path = NibblePath(b'\\x11\\x11\\x33'); path.consume(1)
forged = Leaf(path, b'z' * 40).encode()
q = Proof(target_key=b'\\x11\\x11\\x33', root_hash=p.trie_root, proof=(p.proof[0], forged), proof_type=p.type)
sys.exit(1 if ok(t.verify_proof_of_inclusion, q) else 0)
"""},
 {"id": "c06-first-node-unchecked", "property": "C06",
  "needs": "a proof for another trie, presented with the verifier's root in its root field, when the verifier's root is embedded-size",
  "breaks": "the walk starts at the first proof node and the root hash is compared with the proof's own field instead of the node",
  "edits": [("mpt.py", """        valid = self._verify_proof_of_inclusion(
            self._root, NibblePath(proof.target_key), proof_storage
        )""", """        valid = self._verify_proof_of_inclusion(
            Node.decode(proof.proof[0]), NibblePath(proof.target_key), proof_storage
        )"""), ("mpt.py", """        # Compare the root hashes
        if self.root_hash() != keccak_hash(proof.proof[0]):
            return False

        # Recreate a partial trie from the proof and walk down from root to taget
        # node.
        proof_storage = {}
        for encoded_node in proof.proof:
            try:""", """        # Compare the root hashes
        if self.root_hash() not in [keccak_hash(node) for node in proof.proof]:
            return False

        # Recreate a partial trie from the proof and walk down from root to taget
        # node.
        proof_storage = {}
        for encoded_node in proof.proof:
            try:""")],
  "demo": PRE + """t = MPT({}); u = MPT({})
t.update(b'\\x11\\x11\\x11', b'a' * 40); t.update(b'\\x21\\x11', b'b' * 40)
u.update(b'\\x11\\x11\\x11', b'a' * 40); u.update(b'\\x77\\x11', b'b' * 40)
p = t.get_proof_of_inclusion(b'\\x11\\x11\\x11')
o = u.get_proof_of_inclusion(b'\\x77\\x11')
q = Proof(target_key=o.target_key, root_hash=p.trie_root, proof=o.proof + p.proof, proof_type=p.type)
sys.exit(1 if ok(t.verify_proof_of_inclusion, q) else 0)
"""},
 {"id": "c07-leaf-not-in-proof", "property": "C07",
  "needs": "an absent key that ends at a leaf, below the root, that shares no nibble with the rest of the key",
  "breaks": "the proof of exclusion lacks the leaf at which the path ends",
  "edits": [("mpt.py", """        # If path is empty, our travel is over.
        if len(path) == 0:
            proof.append(node.encode())
            return node, proof
""", """        # If path is empty, our travel is over.
        if len(path) == 0:
            if type(node) is not Leaf:
                proof.append(node.encode())
            return node, proof
""")],
  "demo": PRE + """t = MPT({})
t.update(b'\\x11\\x11\\x11', b'a' * 40); t.update(b'\\x12\\x11', b'b' * 40)
t.update(b'\\x22', b'c' * 40)
p = t.get_proof_of_exclusion(b'\\x11')
sys.exit(0 if ok(t.verify_proof_of_exclusion, p) is True else 1)
"""},
 {"id": "c07-branch-data", "property": "C07",
  "needs": "an absent key ending in an empty slot of a branch that itself holds a value",
  "breaks": "no proof of exclusion can be made below a branch holding a value when the branch is at even depth",
  "edits": [("mpt.py", """            branch = node.branches[path.at(0)]
            proof.append(node.encode())
            if len(branch) > 0:""", """            branch = node.branches[path.at(0)]
            if len(branch) > 0 or len(node.data) == 0 or len(path) > 2:
                proof.append(node.encode())
            if len(branch) > 0:""")],
  "demo": PRE + """t = MPT({})
t.update(b'\\x11', b'a' * 40); t.update(b'\\x11\\x22', b'b' * 40); t.update(b'\\x11\\x33', b'b' * 40)
p = ok(t.get_proof_of_exclusion, b'\\x11\\x44')
sys.exit(0 if p is not None and ok(t.verify_proof_of_exclusion, p) is True else 1)
"""},
 {"id": "c07-verify-own-storage", "property": "C07",
  "needs": "a verifier other than the prover, holding the same root but no stored nodes",
  "breaks": "the verifier answers from its own storage, so a trie without the nodes cannot verify",
  "edits": [("mpt.py", """        # Recreate a partial trie from the proof and walk down from root to taget
        # node.
        proof_storage = {}
        for encoded_node in proof.proof[:-1]:  # Exclude the null leaf.""", """        if self._secure is False and self.contains(proof.target_key):
            return False

        # Recreate a partial trie from the proof and walk down from root to taget
        # node.
        proof_storage = {}
        for encoded_node in proof.proof[:-1]:  # Exclude the null leaf.""")],
  "demo": PRE + """t = MPT({})
for i in range(40):
    t.update(b'key-number-%d' % i, b'value %d' % i * 5)
p = t.get_proof_of_exclusion(b'key-number-777')
sys.exit(0 if ok(t.verify_proof_of_exclusion, p) is True and ok(MPT({}, root=t.root()).verify_proof_of_exclusion, p) is True else 1)
"""},
 {"id": "c08-missing-next-node", "property": "C08",
  "needs": "a truncated proof: the nodes below a branch left out",
  "breaks": "a child that is missing from the proof is taken for an empty slot",
  "edits": [("mpt.py", """            branch = node.branches[path.at(0)]
            if len(branch) > 0:
                return self._verify_proof_of_exclusion(
                    branch, path.consume(1), proof_storage
                )""", """            branch = node.branches[path.at(0)]
            if branch in proof_storage:
                return self._verify_proof_of_exclusion(
                    branch, path.consume(1), proof_storage
                )""")],
  "demo": PRE + """from pymt.utils.node import Leaf
from pymt.utils.nibble_path import NibblePath
t = MPT({})
t.update(b'\\x11\\x11\\x11', b'a' * 40); t.update(b'\\x21\\x11', b'b' * 40)
p = t.get_proof_of_inclusion(b'\\x11\\x11\\x11')
n = Leaf(NibblePath(p.target_key), b'null').encode()
q = Proof(target_key=p.target_key, root_hash=t.root_hash(), proof=p.proof[:1] + (n,), proof_type=b'MPT-POE')
sys.exit(1 if ok(t.verify_proof_of_exclusion, q) else 0)
"""},
 {"id": "c08-extension-mismatch", "property": "C08",
  "needs": "a key whose path runs through an extension with an odd number of nibbles left",
  "breaks": "the verifier stops at an extension when the remaining path is longer than the extension by one nibble",
  "edits": [("mpt.py", """            if path.starts_with(node.path):
                rest_path = path.consume(len(node.path))
                return self._verify_proof_of_exclusion(""", """            if len(path) != len(node.path) and path.starts_with(node.path):
                rest_path = path.consume(len(node.path))
                return self._verify_proof_of_exclusion(""")],
  "demo": PRE + """from pymt.utils.node import Leaf
from pymt.utils.nibble_path import NibblePath
t = MPT({})
t.update(b'\\x11\\x11', b'a' * 40); t.update(b'\\x11\\x11\\x22', b'b' * 40); t.update(b'\\x11\\x11\\x33', b'b' * 40)
p = t.get_proof_of_inclusion(b'\\x11\\x11')
n = Leaf(NibblePath(p.target_key), b'null').encode()
bad = 0
for i in range(1, len(p.proof) + 1):
    q = Proof(target_key=p.target_key, root_hash=t.root_hash(), proof=p.proof[:i] + (n,), proof_type=b'MPT-POE')
    if ok(t.verify_proof_of_exclusion, q):
        bad = 1
sys.exit(bad)
"""},
 {"id": "c08-null-leaf-checked-only", "property": "C08",
  "needs": "a proof of exclusion made in one trie and replayed against a trie in which the key is present (same first node excluded)",
  "breaks": "the verifier compares the proof's own root field instead of its first node",
  "edits": [("mpt.py", """        # Compare the root hashes
        if self.root_hash() != keccak_hash(proof.proof[0]):
            return False

        if Node.decode(proof.proof[-1]).data""", """        # Compare the root hashes
        if self.root_hash() != proof.trie_root:
            return False

        if Node.decode(proof.proof[-1]).data"""), ("mpt.py", """        node, keys_left = self._verify_proof_of_exclusion(
            self.root(), path, proof_storage
        )""", """        node, keys_left = self._verify_proof_of_exclusion(
            Node.into_reference(Node.decode(proof.proof[0])), path, proof_storage
        )""")],
  "demo": PRE + """t = MPT({}); u = MPT({})
t.update(b'\\x11\\x11\\x11', b'a' * 40); t.update(b'\\x21\\x11', b'b' * 40)
u.update(b'\\x21\\x11', b'b' * 40)
p = u.get_proof_of_exclusion(b'\\x11\\x11\\x11')
q = Proof(target_key=p.target_key, root_hash=t.root_hash(), proof=p.proof, proof_type=p.type)
sys.exit(1 if ok(t.verify_proof_of_exclusion, q) else 0)
"""},
]
BUGS = [b for b in BUGS if b["demo"]]
