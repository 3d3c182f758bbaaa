PRE = """
import sys
from pymt.empt import EMPT, SparseEMPT, RootEMPT, DataReference


class Obj:
    def __init__(self, b):
        self.b = b

    def encode_rlp(self):
        return self.b

    def decode_rlp(self, b):
        return Obj(b)
"""
BUGS = [
 dict(id="c12-same-reference-kept", property="C12",
  needs="a key stored again with an equal encoding but a value of another kind (bytes, then an object)",
  breaks="the most recently stored value is not the one returned: an update whose reference equals the stored one is skipped",
  edits=[("empt.py", """        self._trie.update(key, ref.encode())
        self._data_storage[key] = value
""", """        # Nothing to do when the reference is already stored
        if self._trie.contains(key) and self.get_reference(key) == ref:
            return
        self._trie.update(key, ref.encode())
        self._data_storage[key] = value
""")],
  demo=PRE+"""
t = EMPT({}, {})
t.update(b"k", b"data")
o = Obj(b"data")
t.update(b"k", o)
sys.exit(0 if t.get(b"k") is o else 1)
"""),
 dict(id="c12-empty-value-kept", property="C12",
  needs="deleting a key whose value is empty bytes",
  breaks="deleting a present key raises",
  edits=[("empt.py", """        if not self._trie.contains(key):
            raise KeyNotFoundError("The key is not in the trie")
        del self._data_storage[key]
""", """        if not self._trie.contains(key) or not self._data_storage[key]:
            raise KeyNotFoundError("The key is not in the trie")
        del self._data_storage[key]
""")],
  demo=PRE+"""
t = EMPT({}, {})
t.update(b"k", b"")
t.update(b"l", b"x")
try:
    t.delete(b"k")
except Exception:
    sys.exit(1)
sys.exit(0 if not t.contains(b"k") and len(t) == 1 else 1)
"""),
 dict(id="c12-shared-data", property="C12",
  needs="two extended tries constructed without storages",
  breaks="instances share their data storage",
  edits=[("empt.py", """        data_storage=...,
""", """        data_storage={},
""")],
  demo=PRE+"""
a = EMPT()
a.update(b"k", b"v")
b = EMPT()
sys.exit(0 if len(b) == 0 and list(b) == [] else 1)
"""),
 dict(id="c12-length-of-live", property="C12",
  needs="a key whose stored value is falsy (empty bytes)",
  breaks="iteration leaves out keys with empty values",
  edits=[("empt.py", """        return iter(self._data_storage)
""", """        return iter({k: v for k, v in self._data_storage.items() if v})
""")],
  demo=PRE+"""
t = EMPT({}, {})
t.update(b"k", b"")
t.update(b"l", b"x")
sys.exit(0 if sorted(t) == [b"k", b"l"] and len(t) == 2 else 1)
"""),
 dict(id="c13-bytearray-unchecked", property="C13",
  needs="a bytearray stored and then changed in place",
  breaks="the changed bytes are returned",
  edits=[("empt.py", """        if ref != expected:
            raise InvalidReferenceError(""", """        if isinstance(data, bytearray) and len(ref.data) == len(data):
            return data
        if ref != expected:
            raise InvalidReferenceError(""")],
  demo=PRE+"""
t = EMPT({}, {})
v = bytearray(b"data")
t.update(b"k", v)
t._data_storage[b"k"][0] = 0
try:
    t.get(b"k")
except Exception:
    sys.exit(0)
sys.exit(1)
"""),
 dict(id="c13-long-data-prefix", property="C13",
  needs="a replaced value that differs from the original only after its first 256 bytes",
  breaks="the comparison looks at the first bytes of long data only",
  edits=[("empt.py", """        if ref != expected:
            raise InvalidReferenceError(""", """        if len(data if isinstance(data, bytes) else ref.data) > 256:
            changed = ref.data[:256] != expected.data[:256]
        else:
            changed = ref != expected
        if changed:
            raise InvalidReferenceError(""")],
  demo=PRE+"""
t = EMPT({}, {})
t.update(b"k", b"x" * 300)
t._data_storage[b"k"] = b"x" * 299 + b"y"
try:
    t.get(b"k")
except Exception:
    sys.exit(0)
sys.exit(1)
"""),
 dict(id="c13-checked-once", property="C13",
  needs="a value read once, then replaced behind the trie's back, then read again",
  breaks="validated keys are remembered and not validated again",
  edits=[("empt.py", """        self._data_storage = data_storage
""", """        self._data_storage = data_storage
        self._valid = set()
"""), ("empt.py", """        data = self._data_storage[key]
        ref = self._trie.get(key)
""", """        data = self._data_storage[key]
        if key in self._valid:
            return data
        ref = self._trie.get(key)
"""), ("empt.py", """            )
        return data
""", """            )
        self._valid.add(key)
        return data
"""), ("empt.py", """        self._data_storage[key] = value
""", """        self._data_storage[key] = value
        self._valid.discard(key)
""")],
  demo=PRE+"""
t = EMPT({}, {})
t.update(b"k", b"data")
t.get(b"k")
t._data_storage[b"k"] = b"other"
try:
    t.get(b"k")
except Exception:
    sys.exit(0)
sys.exit(1)
"""),
 dict(id="c14-view-shares-nodes", property="C14",
  needs="a sparse view, then a deletion and a rebuild of the original",
  breaks="the sparse view loses its nodes when the original is rebuilt",
  edits=[("empt.py", """            trie_storage=storage_copy,
""", """            trie_storage=storage_copy if self._trie.secure else self._trie._storage,
""")],
  demo=PRE+"""
t = EMPT({}, {})
for i in range(20):
    t.update(b"key %d" % i, b"v" * i)
s = t.get_sparse_trie()
t.delete(b"key 3")
t.build_trie()
try:
    ok = s.get_reference(b"key 3").data == b"vvv"
except Exception:
    ok = False
sys.exit(0 if ok else 1)
"""),
 dict(id="c14-rebuild-loses-mode", property="C14",
  needs="rebuilding a secure extended trie",
  breaks="the rebuilt trie is not secure: another root hash",
  edits=[("empt.py", """        self._trie = MPT(self._trie._storage, secure=self._trie.secure)
""", """        self._trie = MPT(self._trie._storage)
""")],
  demo=PRE+"""
t = EMPT({}, {}, secure=True)
t.update(b"k", b"v")
r = t.root_hash()
t.build_trie()
sys.exit(0 if t.root_hash() == r and t.get(b"k") == b"v" and t.secure else 1)
"""),
 dict(id="c14-sparse-root-mode", property="C14",
  needs="the root view of a sparse view of a secure trie",
  breaks="the root view of a sparse trie is not in the mode of the original",
  edits=[("empt.py", """        return RootEMPT(secure=self._trie.secure, root=self._trie.root())

    # TRIE METHODS""", """        return RootEMPT(root=self._trie.root())

    # TRIE METHODS""")],
  demo=PRE+"""
t = EMPT({}, {}, secure=True)
t.update(b"k", b"v")
sys.exit(0 if t.get_sparse_trie().get_root_trie().secure else 1)
"""),
 dict(id="c14-sparse-empty-object", property="C14",
  needs="a sparse trie fed an object whose encoding is empty, or empty bytes",
  breaks="a sparse trie fed the same updates as a full one has another root hash",
  edits=[("empt.py", """        ref = DataReference(key, bytes(value))
        self._trie.update(key, ref.encode())

    def delete""", """        ref = DataReference(key, bytes(value) or b"null")
        self._trie.update(key, ref.encode())

    def delete""")],
  demo=PRE+"""
t, s = EMPT({}, {}), SparseEMPT()
for x in (t, s):
    x.update(b"a", b"v")
    x.update(b"k", b"")
sys.exit(0 if t.root_hash() == s.root_hash() else 1)
"""),
 dict(id="c14-decoded-root-mode", property="C14",
  needs="the root view of a secure trie, encoded and decoded",
  breaks="the decoded view is not in the mode of the original",
  edits=[("empt.py", """        rmpt = RootEMPT(mpt.root())
        rmpt._trie = mpt
        return rmpt
""", """        rmpt = RootEMPT(mpt.root())
        return rmpt
""")],
  demo=PRE+"""
t = EMPT({}, {}, secure=True)
t.update(b"k", b"v")
r = RootEMPT.decode_rlp(t.get_root_trie().encode_rlp())
sys.exit(0 if r.secure and r.root_hash() == t.root_hash() else 1)
"""),
]
