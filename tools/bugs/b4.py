import runpy, os
PRE = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b3.py"))["PRE"]
BUGS = [
 {"id": "c05-embedded-31", "property": "C05",
  "needs": "a node of exactly 31 encoded bytes below the root, embedded in its parent",
  "breaks": "the verifier takes a 31-byte embedded node for a reference when the proof does not hold it separately as bytes",
  "edits": [("mpt.py", """            if len(node_ref) == 32:
                try:
                    raw_node = proof_storage[node_ref]
                except KeyError:
                    return False
            else:""", """            if len(node_ref) >= 31:
                try:
                    if len(path) == 0 and len(node_ref) < 32:
                        return False
                    raw_node = proof_storage[node_ref]
                except KeyError:
                    return False
            else:""")],
  "demo": PRE + """t = MPT({})
bad = 0
for n in range(20, 36):
    t = MPT({})
    t.update(b'\\x11\\x11', b'a' * n); t.update(b'\\x21\\x11', b'b' * n); t.update(b'\\x11', b'c' * n); t.update(b'\\x11\\x11\\x11', b'c' * n)
    t.update(b'', b'q'); t.update(b'\\x31', b'd' * n)
    for k in (b'\\x11\\x11', b'\\x21\\x11', b'\\x11', b'\\x31', b''):
        if ok(t.verify_proof_of_inclusion, t.get_proof_of_inclusion(k)) is not True:
            bad = 1
sys.exit(bad)
"""},
 {"id": "c05-skips-repeated", "property": "C05",
  "needs": "a trie in which the node of the key and the extension above it are as long as each other",
  "breaks": "the extension is dropped from the proof when the remaining path is exactly the extension",
  "edits": [("mpt.py", """                rest_path = path.consume(len(node.path))
                proof.append(node.encode())
                return self._get_proof_of_inclusion(node.next_ref, rest_path, proof)""",
"""                rest_path = path.consume(len(node.path))
                if len(rest_path) > 0 or len(proof) < 2:
                    proof.append(node.encode())
                return self._get_proof_of_inclusion(node.next_ref, rest_path, proof)""")],
  "demo": PRE + """t = MPT({})
v = b'v' * 40
ks = (b'\\x11\\x11\\x11', b'\\x11\\x11\\x11\\x22', b'\\x11\\x11\\x11\\x32', b'\\x22', b'\\x12')
for k in ks:
    t.update(k, v)
bad = 0
for k in ks:
    if ok(MPT({}, root=t.root()).verify_proof_of_inclusion, t.get_proof_of_inclusion(k)) is not True:
        bad = 1
sys.exit(bad)
"""},
 {"id": "c06-forged-node-keys", "property": "C06",
  "needs": "a forged proof whose first node is genuine and whose later node is not the referenced one",
  "breaks": "the verifier falls back on the last proof node when a referenced node is missing, so a forged node is walked",
  "edits": [("mpt.py", """                try:
                    raw_node = proof_storage[node_ref]
                except KeyError:
                    return False""", """                try:
                    raw_node = proof_storage[node_ref]
                except KeyError:
                    if len(proof_storage) < 2:
                        return False
                    raw_node = list(proof_storage.values())[-1]""")],
  "demo": PRE + """from pymt.utils.node import Leaf
from pymt.utils.nibble_path import NibblePath
t = MPT({})
t.update(b'\\x11\\x11\\x11', b'a' * 40); t.update(b'\\x21\\x11', b'b' * 40)
p = t.get_proof_of_inclusion(b'\\x11\\x11\\x11')
path = NibblePath(b'\\x11\\x11\\x33'); path.consume(1)
forged = Leaf(path, b'z' * 40).encode()
q = Proof(target_key=b'\\x11\\x11\\x33', root_hash=p.trie_root, proof=(p.proof[0], forged), proof_type=p.type)
sys.exit(1 if ok(t.verify_proof_of_inclusion, q) else 0)
"""},
 {"id": "c07-leaf-at-end", "property": "C07",
  "needs": "an absent key whose path ends at a stored leaf with a longer path",
  "breaks": "a key ending exactly at a leaf is refused an exclusion proof",
  "edits": [("mpt.py", """        if isinstance(node, Leaf):
            if node.path == path:
                raise PoeError("This should never happen")
""", """        if isinstance(node, Leaf):
            if node.path.starts_with(path):
                raise PoeError("This should never happen")
""")],
  "demo": PRE + """t = MPT({})
t.update(b'\\x11\\x11\\x11', b'a' * 40); t.update(b'\\x12\\x11', b'b' * 40)
t.update(b'\\x22', b'c' * 40)
p = ok(t.get_proof_of_exclusion, b'\\x11\\x11')
sys.exit(0 if p is not None and ok(t.verify_proof_of_exclusion, p) is True else 1)
"""},
]
