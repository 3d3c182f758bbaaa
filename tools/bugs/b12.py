PRE='''
import sys, rlp, hashlib
from pymt.mpt import MPT
from pymt.empt import EMPT, SparseEMPT
from pymt.utils.exceptions import *
def fails(f):
    try:
        f()
    except Exception:
        return True
    return False
'''
BUGS=[
 dict(id="c05-deep-proof", property="C05",
  needs="a plain trie with a chain of about seventy nested keys, so that the proof of the longest has more than 64 nodes",
  breaks="an honest proof with more than 64 nodes is refused",
  edits=[("mpt.py", '''        valid = self._verify_proof_of_inclusion(
            self._root, NibblePath(proof.target_key), proof_storage
        )
''','''        # A path has 64 nibbles at most, there is no need to walk longer proofs
        valid = len(proof.proof) <= 64 and self._verify_proof_of_inclusion(
            self._root, NibblePath(proof.target_key), proof_storage
        )
''')],
  demo=PRE+'''
t = MPT({})
for n in range(1, 80):
    t.update(b"a" * n, b"some value %d" % n)
for n in range(1, 80):
    if not t.verify_proof_of_inclusion(t.get_proof_of_inclusion(b"a" * n)):
        sys.exit(1)
'''),
 dict(id="c05-hashed-already", property="C05",
  needs="a trie in secure mode with a key of exactly 32 bytes",
  breaks="the proof of a present key of 32 bytes cannot be generated in secure mode",
  edits=[("mpt.py", '''        if self._secure:
            encoded_key = keccak_hash(encoded_key)

        proof_list = self._get_proof_of_inclusion(
''','''        if self._secure and len(encoded_key) != len(Node.EMPTY_HASH):
            encoded_key = keccak_hash(encoded_key)

        proof_list = self._get_proof_of_inclusion(
''')],
  demo=PRE+'''
t = MPT({}, secure=True)
t.update(b"k" * 32, b"v")
t.update(b"l" * 31, b"v")
for k in (b"k" * 32, b"l" * 31):
    p = t.get_proof_of_inclusion(k)
    if not t.verify_proof_of_inclusion(p):
        sys.exit(1)
'''),
 dict(id="c05-embedded-left-out", property="C05",
  needs="a trie whose only node is shorter than 32 bytes",
  breaks="the proof of a key in a trie of one small leaf is empty and verification raises",
  edits=[("mpt.py", '''            if node.path == path:
                proof.append(node.encode())
                return proof
            else:
                raise LeafPathError(
''','''            if node.path == path:
                # A small leaf is embedded in the node before it
                if len(node_ref) == 32:
                    proof.append(node.encode())
                return proof
            else:
                raise LeafPathError(
''')],
  demo=PRE+'''
t = MPT({})
t.update(b"k", b"v")
if not t.verify_proof_of_inclusion(t.get_proof_of_inclusion(b"k")):
    sys.exit(1)
'''),
 dict(id="c05-prefix-of-leaf", property="C05",
  needs="an absent key that is a proper prefix of a stored key, with no branch at its end",
  breaks="a proof of inclusion is generated for a key that is absent",
  edits=[("mpt.py", '''            if node.path == path:
                proof.append(node.encode())
                return proof
            else:
                raise LeafPathError(
''','''            if node.path.starts_with(path):
                proof.append(node.encode())
                return proof
            else:
                raise LeafPathError(
''')],
  demo=PRE+'''
t = MPT({})
t.update(b"key one", b"value")
t.update(b"other", b"value")
if not fails(lambda: t.get_proof_of_inclusion(b"key")):
    sys.exit(1)
'''),
 dict(id="c07-empty-key", property="C07",
  needs="the exclusion proof of the empty key, in plain mode",
  breaks="the honest exclusion proof of the empty key is refused",
  edits=[("mpt.py", '''        if Node.decode(proof.proof[-1]).data != b"null":
''','''        if not proof.target_key or Node.decode(proof.proof[-1]).data != b"null":
''')],
  demo=PRE+'''
t = MPT({})
t.update(b"a", b"1" * 40)
t.update(b"b", b"2" * 40)
p = t.get_proof_of_exclusion(b"")
if not t.verify_proof_of_exclusion(p):
    sys.exit(1)
'''),
 dict(id="c02-small-extension", property="C02",
  needs="deleting one of two children of a branch when the other is an extension to an embedded branch (single-nibble leaves with tiny values)",
  breaks="two chained extensions stay behind, so the root hash depends on the history",
  edits=[("mpt.py", '''        elif type(child) == Extension:
            path = NibblePath.combine(prefix_nibble, child.path)
            node = Extension(path, child.next_ref)
        elif type(child) == Branch:
            path = prefix_nibble
            node = Extension(path, branches[idx])

        reference = self._store_node(node)

        return MPT''','''        elif type(child) == Extension and len(child.next_ref) == 32:
            path = NibblePath.combine(prefix_nibble, child.path)
            node = Extension(path, child.next_ref)
        else:
            path = prefix_nibble
            node = Extension(path, branches[idx])

        reference = self._store_node(node)

        return MPT''')],
  demo=PRE+'''
ks = [b"\\x11\\x11\\x10", b"\\x11\\x11\\x11"]
t, u = MPT({}), MPT({})
for k in ks:
    t.update(k, b"v")
    u.update(k, b"v")
u.update(b"\\x22", b"v")
u.delete(b"\\x22")
if t.root_hash() != u.root_hash() or u.get(ks[0]) != b"v":
    sys.exit(1)
'''),
 dict(id="c13-empty-replacement", property="C13",
  needs="stored data replaced by data with no bytes",
  breaks="get returns the empty replacement",
  edits=[("empt.py", '''        if ref != expected:
''','''        if ref != expected and expected.data:
''')],
  demo=PRE+'''
d = {}
t = EMPT({}, d)
t.update(b"k", b"value")
d[b"k"] = b""
if not fails(lambda: t.get(b"k")):
    sys.exit(1)
'''),
 dict(id="c13-object-prefix", property="C13",
  needs="a stored object replaced by another object whose encoding starts with the bytes of the first",
  breaks="get returns the replaced object",
  edits=[("empt.py", '''            expected = DataReference(key, data.encode_rlp())
''','''            expected = DataReference(key, data.encode_rlp()[: len(ref.data)])
''')],
  demo=PRE+'''
class O:
    def __init__(self, x): self.x = x
    def encode_rlp(self): return self.x
    @staticmethod
    def decode_rlp(x): return O(x)
d = {}
t = EMPT({}, d)
t.update(b"k", O(b"12"))
if t.get(b"k").x != b"12":
    sys.exit(1)
d[b"k"] = O(b"123")
if not fails(lambda: t.get(b"k")):
    sys.exit(1)
'''),
 dict(id="c14-rebuild-skips-empty", property="C14",
  needs="rebuilding a trie one of whose values has no bytes",
  breaks="the key with the empty value is lost from the rebuilt trie and its root differs",
  edits=[("empt.py", '''            self._trie.update(key, ref.encode())

    def get(''','''            if ref.data:
                self._trie.update(key, ref.encode())

    def get(''')],
  demo=PRE+'''
t = EMPT({}, {})
t.update(b"k", b"")
t.update(b"l", b"value")
r = t.root_hash()
t.build_trie()
if t.root_hash() != r or t.get(b"k") != b"":
    sys.exit(1)
'''),

 dict(id="c13-bytearray-same-length", property="C13",
  needs="stored data replaced by a bytearray of the same length",
  breaks="get returns the replaced data",
  edits=[("empt.py", '''        if ref != expected:
''','''        if ref != expected and not (
            isinstance(data, bytearray) and len(data) == len(ref.data)
        ):
''')],
  demo=PRE+'''
d = {}
t = EMPT({}, d)
t.update(b"k", b"value")
d[b"k"] = bytearray(b"other")
if not fails(lambda: t.get(b"k")):
    sys.exit(1)
'''),
]
