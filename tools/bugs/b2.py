PRE = """import sys
from pymt.mpt import MPT
def absent(t, k):
    try:
        t.get(k)
    except Exception:
        return True
    return False
"""
BUGS = [
 {"id": "c01-contains-prefix-leaf", "property": "C01",
  "needs": "a membership test for a key that runs out in the middle of the trie, at an embedded or hashed leaf with a longer path",
  "breaks": "contains answers True for a strict prefix of a stored key when the key ends at that leaf",
  "edits": [("mpt.py", """            if node.path == path:
                return True
            else:
                return False
        else:
            # Path doesnt match so key is not in the trie""", """            if node.path.starts_with(path):
                return True
            else:
                return False
        else:
            # Path doesnt match so key is not in the trie""")],
  "demo": PRE + """t = MPT({})
t.update(b'\\x10\\x11', b'a'); t.update(b'\\x21', b'b')
sys.exit(0 if b'\\x10' not in t and b'\\x10\\x11' in t and b'\\x21' in t else 1)
"""},
 {"id": "c01-extension-short-key", "property": "C01",
  "needs": "inserting a key that is a proper prefix of an extension's path",
  "breaks": "the value of a key ending inside an extension is dropped",
  "edits": [("mpt.py", "            branch_value = value if len(path) == 0 else b\"\"\n",
             "            branch_value = b\"\"\n            if len(path) == 0 and len(common_prefix) == 0:\n                branch_value = value\n")],
  "demo": PRE + """t = MPT({})
t.update(b'\\x11\\x11\\x11', b'a'); t.update(b'\\x11\\x11\\x12', b'b'); t.update(b'\\x11', b'c')
sys.exit(0 if not absent(t, b'\\x11') and t.get(b'\\x11') == b'c' else 1)
"""},
 {"id": "c02-extension-chain", "property": "C02",
  "needs": "a deletion after which the branch below an extension has one child left, and that child is itself an extension",
  "breaks": "the two extensions are left chained instead of merged, so the root depends on history",
  "edits": [("mpt.py", """                elif type(child) == Extension:
                    # If next node is the extension, merge this and next node into one.
                    path = NibblePath.combine(node.path, child.path)
                    new_node = Extension(path, child.next_ref)
""", """                elif type(child) == Extension:
                    # If child is an extension we keep the current one in front of it.
                    new_node = Extension(node.path, stored_ref)
""")],
  "demo": PRE + """a, b = MPT({}), MPT({})
for k in (b'\\x11\\x11\\x11', b'\\x11\\x11\\x12'):
    a.update(k, b'v'); b.update(k, b'v')
a.update(b'\\x12', b'v'); a.delete(b'\\x12')
sys.exit(0 if a.root_hash() == b.root_hash() and a.get(b'\\x11\\x11\\x12') == b'v' else 1)
"""},
 {"id": "c02-equal-by-root", "property": "C02",
  "needs": "comparing a trie that was emptied with a new one",
  "breaks": "== compares the internal root references, which differ for an emptied and a new trie",
  "edits": [("mpt.py", "        return self.__hash__() == other.__hash__()", "        return self._root == other._root")],
  "demo": PRE + """t = MPT({})
t.update(b'k', b'v'); t.delete(b'k')
sys.exit(0 if t == MPT({}) else 1)
"""},
 {"id": "c03-delete-clears-first", "property": "C03",
  "needs": "a delete of an absent key that leaves the trie at a leaf directly at the root, in a trie with one key",
  "breaks": "deleting from a trie with a single leaf clears the root before the key is compared",
  "edits": [("mpt.py", """        path = NibblePath(encoded_key)
        action, info = self._delete(self._root, path)
""", """        path = NibblePath(encoded_key)
        root, self._root = self._root, None

        action, info = self._delete(root, path)
""")],
  "demo": PRE + """t = MPT({})
t.update(b'k', b'v')
r = t.root_hash()
try:
    t.delete(b'other')
    sys.exit(1)
except Exception:
    pass
sys.exit(0 if t.root_hash() == r and t.get(b'k') == b'v' else 1)
"""},
 {"id": "c03-delete-updates-empty-slot", "property": "C03",
  "needs": "a delete of an absent key whose search passes a hashed branch and fails below it",
  "breaks": "the branch is rewritten in storage, with the slot emptied, before the deletion below it is known to succeed",
  "edits": [("mpt.py", """                action, info = self._delete(node.branches[idx], path.consume(1))
                node.branches[idx] = b""
""", """                child_ref = node.branches[idx]
                node.branches[idx] = b""
                self._store_node(node)
                action, info = self._delete(child_ref, path.consume(1))
""")],
  "demo": PRE + """t = MPT({})
for i in range(16):
    t.update(bytes([16 * i]), b'v' * 40)
s = dict(t._storage)
try:
    t.delete(b'\\x11')
    sys.exit(1)
except Exception:
    pass
sys.exit(0 if t._storage == s else 1)
"""},
 {"id": "c04-garbage-collect", "property": "C04",
  "needs": "opening the trie at an earlier root, after an overwrite of a value in a leaf",
  "breaks": "the overwritten leaf is removed from storage, where earlier roots and equal leaves still need it",
  "edits": [("mpt.py", """                node.data = value
                return self._store_node(node)
""", """                node.data = value
                # The old leaf is not needed any more
                self._storage.pop(node_ref, None)
                return self._store_node(node)
""")],
  "demo": PRE + """s = {}
t = MPT(s)
t.update(b'k1', b'v' * 40); t.update(b'k2', b'w' * 40)
r = t.root()
t.update(b'k1', b'x' * 40)
o = MPT(s, r)
sys.exit(0 if not absent(o, b'k1') and o.get(b'k1') == b'v' * 40 else 1)
"""},
 {"id": "c04-branch-stored-in-place", "property": "C04",
  "needs": "reading an earlier root after a value was set on a branch",
  "breaks": "a branch that gets a value overwrites its old entry in storage, so an entry is no longer filed under its hash",
  "edits": [("mpt.py", """            if len(path) == 0:
                return self._store_node(Branch(node.branches, value))
""", """            if len(path) == 0:
                node.data = value
                if len(node_ref) == 32:
                    self._storage[node_ref] = node.encode()
                return self._store_node(node)
""")],
  "demo": PRE + """s = {}
t = MPT(s)
t.update(b'k1', b'v' * 40); t.update(b'k2', b'w' * 40)
r = t.root()
t.update(b'k', b'x' * 40)
o = MPT(s, r)
sys.exit(0 if absent(o, b'k') and o.get(b'k1') == b'v' * 40 else 1)
"""},
]
BUGS += [
 {"id": "c02-collapse-keeps-extension", "property": "C02",
  "needs": "a deletion that leaves a branch with a single child which is an extension",
  "breaks": "the collapsed branch becomes an extension in front of an extension instead of one merged extension",
  "edits": [("mpt.py", """        elif type(child) == Extension:
            path = NibblePath.combine(prefix_nibble, child.path)
            node = Extension(path, child.next_ref)
        elif type(child) == Branch:
            path = prefix_nibble
            node = Extension(path, branches[idx])
""", """        else:
            path = prefix_nibble
            node = Extension(path, branches[idx])
""")],
  "demo": PRE + """a, b = MPT({}), MPT({})
for k in (b'\\x11\\x11', b'\\x11\\x12'):
    a.update(k, b'v'); b.update(k, b'v')
a.update(b'\\x22', b'v'); a.delete(b'\\x22')
sys.exit(0 if a.root_hash() == b.root_hash() and a.get(b'\\x11\\x12') == b'v' else 1)
"""},
 {"id": "c04-shared-decoded-nodes", "property": "C04",
  "needs": "a trie opened twice over one storage in one process, and an update that modifies a decoded node in place",
  "breaks": "decoded nodes are kept in a cache shared by all tries, so an update changes the node that an earlier root reads",
  "edits": [("mpt.py", """    def _get_node(self, node_ref: bytes) -> Node:
""", """    _decoded = {}

    def _get_node(self, node_ref: bytes) -> Node:
"""), ("mpt.py", """        decoded_node = Node.decode(raw_node)
        if not (
            isinstance(decoded_node, Extension)
            or isinstance(decoded_node, Leaf)
            or isinstance(decoded_node, Branch)
        ):
            raise InvalidNodeError(""", """        if raw_node not in MPT._decoded:
            MPT._decoded[raw_node] = Node.decode(raw_node)
        decoded_node = MPT._decoded[raw_node]
        if not (
            isinstance(decoded_node, Extension)
            or isinstance(decoded_node, Leaf)
            or isinstance(decoded_node, Branch)
        ):
            raise InvalidNodeError(""")],
  "demo": PRE + """s = {}
t = MPT(s)
t.update(b'k1', b'v' * 40); t.update(b'k2', b'w' * 40)
r = t.root()
t.update(b'k1', b'x' * 40)
o = MPT(s, r)
sys.exit(0 if not absent(o, b'k1') and o.get(b'k1') == b'v' * 40 else 1)
"""},
]
