PRE = """import sys, rlp
from Crypto.Hash import keccak
from pymt.empt import DataReference, EMPT, SparseEMPT, RootEMPT
def num(b): return int.from_bytes(keccak.new(data=b, digest_bits=256).digest(), 'big')
def decodes(l):
    try:
        DataReference.decode(rlp.encode(l))
        return True
    except Exception:
        return False
"""
BUGS = [
 {"id": "c15-truncated-hash", "property": "C15",
  "needs": "an encoded reference whose hash agrees with the right one modulo 2**61-1",
  "breaks": "the hash read is compared by way of Python's hash(), which reduces it",
  "edits": [("empt.py", "        if ref.hash != hash:\n", "        if ref.hash % (2**61 - 1) != hash % (2**61 - 1):\n")],
  "demo": PRE + """h = num(b'key' + b'data')
sys.exit(1 if decodes([b'FF', b'key', b'data', h + 2**61 - 1]) or not decodes([b'FF', b'key', b'data', h]) else 0)
"""},
 {"id": "c15-marker-case", "property": "C15",
  "needs": "an encoded reference whose marker is in lower case",
  "breaks": "the marker is compared without regard to case",
  "edits": [("empt.py", '        if flag != b"FF":\n', '        if flag not in b"FFff":\n')],
  "demo": PRE + """h = num(b'key' + b'data')
sys.exit(1 if decodes([b'ff', b'key', b'data', h]) or not decodes([b'FF', b'key', b'data', h]) else 0)
"""},
 {"id": "c15-empty-data", "property": "C15",
  "needs": "a reference to empty data with a wrong hash",
  "breaks": "the hash is not checked when there is no data",
  "edits": [("empt.py", "        if ref.hash != hash:\n", "        if data and ref.hash != hash:\n")],
  "demo": PRE + """sys.exit(1 if decodes([b'FF', b'key', b'', 1]) else 0)
"""},
 {"id": "c15-stripped-equality", "property": "C15",
  "needs": "two references for the same key whose data differ in trailing zero bytes only",
  "breaks": "equality compares the data without trailing zeros",
  "edits": [("empt.py", "        return self.hash == other.hash\n",
             "        if self._key == other.key:\n            return self._data.rstrip(b\"\\0\") == other.data.rstrip(b\"\\0\")\n        return self.hash == other.hash\n")],
  "demo": PRE + """sys.exit(1 if DataReference(b'k', b'a') == DataReference(b'k', b'a\\0') else 0)
"""},
]
