BUGS = [
 {"id": "c11-starts-with-slices", "property": "C11",
  "needs": "a prefix path that was computed (combine, common_prefix) rather than built from bytes, both offsets even",
  "breaks": "starts_with compares slices of the underlying data, so a path whose data is a list is never a prefix of one whose data is bytes",
  "edits": [("utils/nibble_path.py", """        if len(other) > len(self):
            return False

        for i in range(len(other)):""", """        if len(other) > len(self):
            return False

        if self._offset % 2 == 0 and other._offset % 2 == 0:
            mine = self._data[self._offset // 2:]
            theirs = other._data[other._offset // 2:]
            return mine[:len(theirs)] == theirs

        for i in range(len(other)):""")],
  "demo": """import sys
from pymt.utils.nibble_path import NibblePath
a = NibblePath(b'\\x12\\x34\\x56')
p = NibblePath(b'\\x12\\x34').combine(NibblePath(b''))
sys.exit(0 if a.starts_with(p) and not p.starts_with(a) and not NibblePath(b'\\x13').starts_with(NibblePath(b'\\x12')) else 1)
"""},
 {"id": "c11-long-common-prefix", "property": "C11",
  "needs": "two paths that agree on more than 64 nibbles (keys longer than 32 bytes)",
  "breaks": "the common prefix of two paths stops after 64 nibbles, the length of a hashed key",
  "edits": [("utils/nibble_path.py", "        least_len = min(len(self), len(other))",
             "        # keys are at most 32 bytes long\n        least_len = min(len(self), len(other), 64)")],
  "demo": """import sys
from pymt.utils.nibble_path import NibblePath
a, b = NibblePath(b'\\x11' * 40 + b'\\x20'), NibblePath(b'\\x11' * 40 + b'\\x30')
sys.exit(0 if len(a.common_prefix(b)) == 80 else 1)
"""},
 {"id": "c10-short-reference-boundary", "property": "C10",
  "needs": "a node whose encoding is exactly 32 bytes long",
  "breaks": "a node encoded in exactly 32 bytes is referenced by its encoding, which looks like a hash",
  "edits": [("utils/node.py", "        if len(encoded_node) < 32:", "        if len(encoded_node) <= 32:")],
  "demo": """import sys
from pymt.utils.nibble_path import NibblePath
from pymt.utils.node import Leaf, Node
from pymt.utils.hash import keccak_hash
for n in range(20, 40):
    l = Leaf(NibblePath(b'\\x12\\x34'), b'v' * n)
    e = l.encode()
    if Node.into_reference(l) != (e if len(e) < 32 else keccak_hash(e)):
        sys.exit(1)
"""},
 {"id": "c11-encode-remembered", "property": "C11",
  "needs": "a path that is encoded, then shortened with consume, then encoded again",
  "breaks": "the remembered encoding is not dropped when the path is consumed",
  "edits": [("utils/nibble_path.py", """        output = []

        nibbles_len = len(self)""", """        known = self.__dict__.setdefault("_encoded", {})
        if is_leaf in known:
            return known[is_leaf]

        output = []

        nibbles_len = len(self)"""), ("utils/nibble_path.py", """            pos += 2

        return bytes(output)""", """            pos += 2

        known[is_leaf] = bytes(output)
        return known[is_leaf]""")],
  "demo": """import sys
from pymt.utils.nibble_path import NibblePath
p = NibblePath(b'\\x12\\x34\\x56')
p.encode(True)
p.consume(1)
q, leaf = NibblePath.decode_with_type(p.encode(True))
sys.exit(0 if q == p and leaf else 1)
"""},
 {"id": "c10-embedded-child-header", "property": "C10",
  "needs": "an extension or branch with an embedded child whose path takes more than eight bytes and whose data ends in a zero byte",
  "breaks": "an embedded child is put together again by hand, losing trailing zero bytes of its data",
  "edits": [("utils/node.py", """    if isinstance(ref, list):
        return rlp.encode(ref)""", """    if isinstance(ref, list):
        if len(ref) == 2 and isinstance(ref[0], bytes) and len(ref[0]) > 8:
            body = rlp.encode(ref[0]) + rlp.encode(ref[1]).rstrip(b'\\x00')
            return bytes([0xc0 + len(body)]) + body
        return rlp.encode(ref)""")],
  "demo": """import sys
from pymt.utils.nibble_path import NibblePath
from pymt.utils.node import Leaf, Extension, Node
c = Leaf(NibblePath(b'\\x12' * 9), b'va\\x00')
e = Extension(NibblePath(b'\\x12\\x34'), Node.into_reference(c))
sys.exit(0 if Node.decode(e.encode()).next_ref == c.encode() else 1)
"""},
]
