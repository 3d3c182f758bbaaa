PRE='''
import sys, rlp, hashlib
from pymt.mpt import MPT
from pymt.empt import EMPT, SparseEMPT
from pymt.proof import Proof
from pymt.utils.exceptions import *
from pymt.utils.node import *
from pymt.utils.nibble_path import NibblePath
from pymt.utils.hash import keccak_hash
def fails(f):
    try:
        f()
    except Exception:
        return True
    return False
def ok(f):
    try:
        return f() is True
    except Exception:
        return False
'''
BUGS=[
 dict(id="c03-verify-stores-nodes", property="C03",
  needs="a proof verified by a trie that does not hold the nodes of the proof (one opened by its root alone)",
  breaks="verifying a proof adds nodes to the storage of the verifier",
  edits=[("mpt.py", '''        if valid and proof.trie_root in (self.root_hash(), self.root()):
            return True
''','''        if valid and proof.trie_root in (self.root_hash(), self.root()):
            # The nodes were checked against the root, keep them for later look-ups
            for reference, encoded_node in proof_storage.items():
                if len(reference) == 32:
                    self._storage[reference] = encoded_node
            return True
''')],
  demo=PRE+'''
t = MPT({})
for i in range(20):
    t.update(b"key %d" % i, b"a value that is long enough %d" % i)
s = {}
v = MPT(s, t.root())
if not v.verify_proof_of_inclusion(t.get_proof_of_inclusion(b"key 7")):
    sys.exit(2)
if s:
    sys.exit(1)
'''),
 dict(id="c03-encode-stores-root", property="C03",
  needs="a trie whose root node is shorter than 32 bytes",
  breaks="serialising the trie adds an entry to its storage",
  edits=[("mpt.py", '''        """Encode the trie into rlp."""
        storage_list = [
''','''        """Encode the trie into rlp."""
        if self._root and len(self._root) < 32:
            # The root node is small, store it so that it is part of the nodes
            self._storage[self.root_hash()] = self._root
        storage_list = [
''')],
  demo=PRE+'''
t = MPT({})
t.update(b"a", b"1")
n = len(t._storage)
t.encode()
if len(t._storage) != n:
    sys.exit(1)
'''),
 dict(id="c04-emptied-storage", property="C04",
  needs="an older root of a trie that was emptied since",
  breaks="emptying a trie drops its stored nodes, so that older roots cannot be read any more",
  edits=[("mpt.py", '''            # Trie is empty
            self._root = None
''','''            # Trie is empty, nothing in the storage is used any more
            self._root = None
            for reference in list(self._storage.keys()):
                del self._storage[reference]
''')],
  demo=PRE+'''
t = MPT({})
for i in range(5):
    t.update(b"key %d" % i, b"a value that is long enough %d" % i)
r = t.root()
for i in range(5):
    t.delete(b"key %d" % i)
o = MPT(t._storage, r)
if fails(lambda: o.get(b"key 3")):
    sys.exit(1)
'''),
 dict(id="c06-branch-value-prefix", property="C06",
  needs="an absent key whose path leaves the trie at an empty slot of a branch that has a value, and a forged proof of the nodes on that path",
  breaks="an inclusion proof is accepted for an absent key that continues a stored one",
  edits=[("mpt.py", '''                return self._verify_proof_of_inclusion(
                    branch, path.consume(1), proof_storage
                )
            else:
                raise BranchPathError(
                    "Branch slot is empty."
                    " Branch: {}, search path: {}".format(node.branches, path)
                )
''','''                return self._verify_proof_of_inclusion(
                    branch, path.consume(1), proof_storage
                )
            else:
                # Nothing further down, the value has to be in this branch
                return len(node.data) != 0
''')],
  demo=PRE+'''
t = MPT({})
t.update(b"a", b"the value of a")
t.update(b"a1", b"the value of a1")
p = t.get_proof_of_inclusion(b"a")
f = Proof(b"a\\x90", p.trie_root, p.proof, b"MPT-POI")
if ok(lambda: t.verify_proof_of_inclusion(f)):
    sys.exit(1)
'''),
 dict(id="c07-embedded-leaf-left-out", property="C07",
  needs="an absent key whose path ends at a leaf that is embedded in its parent",
  breaks="the exclusion proof leaves the embedded leaf out and is not accepted",
  edits=[("mpt.py", '''            # that is up to the main method).
            proof.append(node.encode())
            return node, proof

        elif type(node) is Extension:
            # If we've found an extension, we need to go deeper.
            if path.starts_with(node.path):
                rest_path = path.consume(len(node.path))
                proof.append(node.encode())
                return self._get_proof_of_exclusion(''','''            # that is up to the main method).
            # A small leaf is already there, inside of the node before
            if len(node_ref) == 32 or not proof:
                proof.append(node.encode())
            return node, proof

        elif type(node) is Extension:
            # If we've found an extension, we need to go deeper.
            if path.starts_with(node.path):
                rest_path = path.consume(len(node.path))
                proof.append(node.encode())
                return self._get_proof_of_exclusion(''')],
  demo=PRE+'''
t = MPT({})
for k in (b"aa", b"ab", b"bb"):
    t.update(k, b"1")
for k in (b"aac", b"abcd", b"b", b"bbb"):
    if not ok(lambda: t.verify_proof_of_exclusion(t.get_proof_of_exclusion(k))):
        sys.exit(1)
'''),
 dict(id="c08-leaf-full-path", property="C08",
  needs="a forged exclusion proof made of the nodes of an inclusion proof, for a key whose leaf is below the root",
  breaks="a present key is shown to be absent",
  edits=[("mpt.py", '''        path = NibblePath(proof.target_key)
        node, keys_left = self._verify_proof_of_exclusion(
            self.root(), path, proof_storage
        )
''','''        node, keys_left = self._verify_proof_of_exclusion(
            self.root(), NibblePath(proof.target_key), proof_storage
        )
        path = NibblePath(proof.target_key)
''')],
  demo=PRE+'''
t = MPT({})
for i in range(8):
    t.update(bytes([16 * i, i]), b"a value that is long enough %d" % i)
p = t.get_proof_of_inclusion(b"\\x30\\x03")
f = Proof(p.target_key, t.root_hash(), tuple(p.proof) + (Leaf(NibblePath(p.target_key), b"null").encode(),), b"MPT-POE")
if ok(lambda: t.verify_proof_of_exclusion(f)):
    sys.exit(1)
'''),
 dict(id="c09-empty-mode", property="C09",
  needs="a secure trie without stored nodes",
  breaks="an empty secure trie is read back as a plain one",
  edits=[("mpt.py", '''        content = [root, storage_list, self._secure]
''','''        # Without any nodes there are no hashed keys
        content = [root, storage_list, self._secure and len(storage_list) > 0]
''')],
  demo=PRE+'''
t = MPT({}, secure=True)
if MPT.decode(t.encode()).secure is not True:
    sys.exit(1)
'''),
 dict(id="c01-last-slot", property="C01",
  needs="a branch that is left with one child, in the last slot, by a deletion",
  breaks="deleting a present key raises",
  edits=[("mpt.py", '''        for i in range(len(branches)):
            if len(branches[i]) > 0:
''','''        for i in range(len(branches) - 1):
            if len(branches[i]) > 0:
''')],
  demo=PRE+'''
t = MPT({})
t.update(b"\\xf0", b"1")
t.update(b"\\x10", b"2")
if fails(lambda: t.delete(b"\\x10")):
    sys.exit(1)
if t.get(b"\\xf0") != b"1":
    sys.exit(1)
'''),
 dict(id="c10-extension-hashed", property="C10",
  needs="an extension whose encoding is shorter than 32 bytes",
  breaks="the reference of a short extension is its hash instead of its encoding",
  edits=[("utils/node.py", '''        if len(encoded_node) < 32:
''','''        # An extension is followed by a branch and hence never small
        if len(encoded_node) < 32 and not isinstance(node, Extension):
''')],
  demo=PRE+'''
b = [b""] * 16
b[3] = Leaf(NibblePath(b""), b"1").encode()
r = Branch(b, b"").encode()
n = Extension(NibblePath(b"\\x12"), r)
if len(n.encode()) < 32 and Node.into_reference(n) != n.encode():
    sys.exit(1)
'''),
 dict(id="c07-proof-of-branch-value", property="C07",
  needs="an absent key that is a prefix of stored keys and ends at a branch without a value below the root",
  breaks="no exclusion proof can be made for such a key",
  edits=[("mpt.py", '''            if node.data != None and node.data != b"":
                raise PoeError("This should never happen")

        # If the node is a leaf''','''            if node.data != None:
                raise PoeError("This should never happen")

        # If the node is a leaf''')],
  demo=PRE+'''
t = MPT({})
t.update(b"aa1", b"the value of aa1")
t.update(b"aaQ", b"the value of aaQ")
if fails(lambda: t.get_proof_of_exclusion(b"aa")):
    sys.exit(1)
'''),
]
