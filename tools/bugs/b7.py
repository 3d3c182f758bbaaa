PRE = """import sys, hashlib
from pymt.merkletools import MerkleTools
from pymt.mt import MerkleTree
from pymt.proof import Proof
def h(b): return hashlib.sha256(b).digest()
def root(l):
    while len(l) > 1:
        l = [h(l[i] + l[i + 1]) for i in range(0, len(l) - 1, 2)] + (l[-1:] if len(l) % 2 else [])
    return l[0].hex().encode()
"""
BUGS = [
 {"id": "c16-equal-neighbours", "property": "C16",
  "needs": "two equal neighbours in a level",
  "breaks": "a pair of equal elements is passed up without hashing",
  "edits": [("merkletools.py", "            new_level.append(self.hash_function(l + r).digest())\n",
             "            new_level.append(self.hash_function(l + r).digest() if l != r else l)\n")],
  "demo": PRE + """t = MerkleTree(secure=False)
t.put_list([b'a', b'b', b'a', b'b', b'c'])
sys.exit(0 if t.get_merkle_root() == root([b'a', b'b', b'a', b'b', b'c']) else 1)
"""},
 {"id": "c16-repeated-leaf", "property": "C16",
  "needs": "a tree that was built, and then a leaf equal to one already in it",
  "breaks": "adding a leaf that is in the tree already leaves the old root in place",
  "edits": [("merkletools.py", "        self.leaves.append(value)\n        self.is_ready = False\n",
             "        if value not in self.leaves:\n            self.is_ready = False\n        self.leaves.append(value)\n")],
  "demo": PRE + """t = MerkleTree(secure=False)
t.put_list([b'a', b'b', b'c'])
t.get_merkle_root()
t.put(b'a')
sys.exit(0 if t.get_merkle_root() == root([b'a', b'b', b'c', b'a']) else 1)
"""},
 {"id": "c16-reset-keeps-levels", "property": "C16",
  "needs": "a root asked for, a reset, and a root asked for again before anything is added",
  "breaks": "a tree that was reset still reports the root of the removed leaves",
  "edits": [("merkletools.py", "        self.levels = None\n        self.is_ready = False\n",
             "        self.levels = getattr(self, \"levels\", None)\n        self.is_ready = False\n")],
  "demo": PRE + """t = MerkleTree()
t.put_list([b'a', b'b'])
t.get_merkle_root()
t.reset_tree()
try:
    t.get_merkle_root()
except ValueError:
    sys.exit(0)
sys.exit(1)
"""},
 {"id": "c17-prefix-index", "property": "C17",
  "needs": "a leaf that starts with the bytes of a leaf added after it, in a tree that does not hash its leaves",
  "breaks": "the proof is made for the first leaf that starts with the value",
  "edits": [("merkletools.py", "        index = self.leaves.index(key)\n",
             "        index = [leaf[: len(key)] for leaf in self.leaves].index(key)\n")],
  "demo": PRE + """t = MerkleTree(secure=False)
t.put_list([b'abc', b'ab', b'x'])
t.make_tree()
sys.exit(0 if t.verify_proof_of_inclusion(t.get_proof_of_inclusion(b'ab')) else 1)
"""},
 {"id": "c17-odd-end", "property": "C17",
  "needs": "the last leaf of a tree of which a level has 3, 7, 11 ... elements",
  "breaks": "the element that has no sibling is recognised in levels of 4n+1 elements only",
  "edits": [("merkletools.py", "                    level_len % 2 == 1\n", "                    level_len % 4 == 1\n")],
  "demo": PRE + """t = MerkleTree(secure=False)
t.put_list([b'a', b'b', b'c', b'd', b'e', b'f', b'g'])
t.make_tree()
try:
    sys.exit(0 if t.verify_proof_of_inclusion(t.get_proof_of_inclusion(b'g')) else 1)
except IndexError:
    sys.exit(1)
"""},
 {"id": "c17-empty-sibling", "property": "C17",
  "needs": "an empty leaf to the left of the proved one, in a tree that does not hash its leaves",
  "breaks": "proofs with an empty sibling on the left are not verified",
  "edits": [("merkletools.py", "                    sibling = bytearray.fromhex(p[\"left\"])\n",
             "                    sibling = bytearray.fromhex(p[\"left\"] or p[\"right\"])\n")],
  "demo": PRE + """t = MerkleTree(secure=False)
t.put_list([b'', b'b', b'c'])
t.make_tree()
try:
    sys.exit(0 if t.verify_proof_of_inclusion(t.get_proof_of_inclusion(b'b')) else 1)
except KeyError:
    sys.exit(1)
"""},
 {"id": "c18-hashed-target", "property": "C18",
  "needs": "a proof whose target is the hash of a leaf of a tree that hashes its leaves",
  "breaks": "a target as long as a digest is taken as hashed already",
  "edits": [("mt.py", "        if self._secure:\n            # The leaves",
             "        if self._secure and len(target_hash) != self.hash_function().digest_size:\n            # The leaves"),
            ("mt.py", "        proof = super().get_proof_of_inclusion(key)\n",
             "        proof = super().get_proof_of_inclusion(key)\n")][:1],
  "demo": PRE + """t = MerkleTree()
t.put_list([b'a', b'b', b'c'])
t.make_tree()
p = t.get_proof_of_inclusion(b'b')
q = Proof(target_key=h(b'b'), root_hash=p.trie_root, proof=p.proof, proof_type=p.type)
sys.exit(1 if t.verify_proof_of_inclusion(q) else 0)
"""},
 {"id": "c18-subtree-root", "property": "C18",
  "needs": "a proof that ends at the root of one half of the tree",
  "breaks": "the root of either half is accepted as the root",
  "edits": [("mt.py", "            return self.get_merkle_root() == proof.trie_root\n",
             "            self.get_merkle_root()\n            tops = [x.hex().encode() for level in self.levels[:2] for x in level]\n            return proof.trie_root in tops\n")],
  "demo": PRE + """t = MerkleTree()
t.put_list([b'a', b'b', b'c', b'd'])
t.make_tree()
p = t.get_proof_of_inclusion(b'b')
half = h(h(b'a') + h(b'b')).hex().encode()
q = Proof(target_key=b'b', root_hash=half, proof=p.proof[:1], proof_type=p.type)
sys.exit(1 if t.verify_proof_of_inclusion(q) else 0)
"""},
 {"id": "c18-lone-leaf", "property": "C18",
  "needs": "a tree with one leaf, and a proof without siblings of another value",
  "breaks": "a tree of one leaf accepts every proof without siblings that names its root",
  "edits": [("merkletools.py", "            return target_hash == merkle_root\n        else:",
             "            return target_hash == merkle_root or len(self.leaves) == 1\n        else:")],
  "demo": PRE + """t = MerkleTree()
t.put(b'a')
t.make_tree()
q = Proof(target_key=b'zzz', root_hash=t.get_merkle_root(), proof=(), proof_type=b'MT-POI')
sys.exit(1 if t.verify_proof_of_inclusion(q) else 0)
"""},
 {"id": "c18-last-side", "property": "C18",
  "needs": "a proof in which the side of the last sibling is changed",
  "breaks": "a proof is also accepted when the root results with the last sibling on the other side",
  "edits": [("merkletools.py", "            proof_hash = target_hash\n            for p in proof:\n",
             "            proof_hash = target_hash\n            last = proof[-1].get(\"right\")\n            for p in proof:\n                if last and p is proof[-1] and self.hash_function(bytearray.fromhex(last) + proof_hash).digest() == merkle_root:\n                    return True\n")],
  "demo": PRE + """t = MerkleTree()
t.put_list([b'a', b'b', b'c', b'd'])
t.make_tree()
p = t.get_proof_of_inclusion(b'd')
q = Proof(target_key=b'd', root_hash=p.trie_root, proof=p.proof[:1] + ((b'right', p.proof[1][1]),), proof_type=p.type)
sys.exit(1 if t.verify_proof_of_inclusion(q) else 0)
"""},
]
