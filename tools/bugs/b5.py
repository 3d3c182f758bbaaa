import runpy, os
PRE = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b3.py"))["PRE"]
BUGS = [
 {"id": "c09-shared-default", "property": "C09",
  "needs": "two tries decoded in one process, one of them changed or of different content",
  "breaks": "decoded tries share one storage dictionary",
  "edits": [("mpt.py", """    def decode(encoded_data: bytes) -> "MPT":""", """    def decode(encoded_data: bytes, storage: dict = {}) -> "MPT":"""),
            ("mpt.py", """        storage = {}
        for encoded_node in storage_list:""", """        for encoded_node in storage_list:""")],
  "demo": PRE + """t, u = MPT({}), MPT({})
t.update(b'a', b'v' * 40); u.update(b'b', b'w' * 40)
x = MPT.decode(t.encode()); y = MPT.decode(u.encode())
x.update(b'c', b'z' * 40)
sys.exit(0 if len(y._storage) == len(u._storage) else 1)
"""},
 {"id": "c09-skips-small", "property": "C09",
  "needs": "a trie holding a node whose encoding is exactly 32 bytes",
  "breaks": "stored nodes of exactly 32 bytes are not written",
  "edits": [("mpt.py", """            _prepare_reference_for_encoding(node) for node in self._storage.values()
""", """            _prepare_reference_for_encoding(node)
            for key, node in self._storage.items()
            if len(node) != len(key)
""")],
  "demo": PRE + """bad = 0
for n in range(20, 36):
    t = MPT({})
    t.update(b'\\x11\\x11', b'a' * n); t.update(b'\\x21\\x11', b'b' * n)
    u = MPT.decode(t.encode())
    if ok(u.get, b'\\x11\\x11') != b'a' * n or ok(u.get, b'\\x21\\x11') != b'b' * n:
        bad = 1
sys.exit(bad)
"""},
 {"id": "c09-reachable-only-root", "property": "C09",
  "needs": "a trie whose root node is small enough to be kept in place",
  "breaks": "the root hash is written instead of the root, so a small trie cannot be read back",
  "edits": [("mpt.py", "        content = [root, storage_list, self._secure]", "        content = [root if storage_list else self.root_hash(), storage_list, self._secure]")],
  "demo": PRE + """t = MPT({})
t.update(b'a', b'v')
u = MPT.decode(t.encode())
sys.exit(0 if ok(u.get, b'a') == b'v' else 1)
"""},
 {"id": "c09-mode-dropped", "property": "C09",
  "needs": "a secure trie with no more than one stored node",
  "breaks": "the mode of a secure trie with a single stored node is lost",
  "edits": [("mpt.py", "        return MPT(storage=storage, root=root, secure=secure)", "        return MPT(storage=storage, root=root, secure=secure and len(storage) != 1)")],
  "demo": PRE + """t = MPT({}, secure=True)
t.update(b'a', b'v' * 50)
u = MPT.decode(t.encode())
sys.exit(0 if u.secure and ok(u.get, b'a') == b'v' * 50 else 1)
"""},
]
