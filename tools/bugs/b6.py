import runpy, os
PRE = """import sys, hashlib
from pymt.utils.hash import keccak_hash, keccak_hash_list
from pymt.utils.utils import Utils
from Crypto.Hash import keccak
def kk(b): return keccak.new(data=b, digest_bits=256).digest()
"""
BUGS = [
 {"id": "c25-list-skips-repeats", "property": "C25",
  "needs": "a list that holds the same item twice",
  "breaks": "hashing a list leaves out an item equal to an earlier one",
  "edits": [("utils/hash.py", "    for item in data:\n", "    for item in dict.fromkeys(data):\n")],
  "demo": PRE + """sys.exit(0 if keccak_hash_list([b'a', b'b', b'a']) == kk(b'aba') else 1)
"""},
 {"id": "c25-running-empty", "property": "C25",
  "needs": "an unfinished SHA-512 digest",
  "breaks": "asking for the unfinished SHA-512 object of no data gives a truncated variant",
  "edits": [("utils/utils.py", "            return SHA512.new(data=data)\n", "            return SHA512.new(data=data) if data else SHA512.new(truncate='256')\n")],
  "demo": PRE + """sys.exit(0 if Utils.sha512(b'', False).digest() == hashlib.sha512(b'').digest() else 1)
"""},
 {"id": "c25-leading-zero", "property": "C25",
  "needs": "a digest whose first byte is zero, and the hexadecimal form",
  "breaks": "hexadecimal keccak digests lose leading zeros",
  "edits": [("utils/hash.py", "        return hash.hexdigest().encode()\n    else:\n        return hash.digest()\n", "        return ('%x' % int.from_bytes(hash.digest(), 'big')).encode()\n    else:\n        return hash.digest()\n")],
  "demo": PRE + """bad = 0
for i in range(2000):
    b = str(i).encode()
    if keccak_hash(b, True) != kk(b).hex().encode():
        bad = 1
sys.exit(bad)
"""},
 {"id": "c25-type-prefix", "property": "C25",
  "needs": "an unknown algorithm name that is a part of a known one",
  "breaks": "algorithm names that are a part of a known name are accepted",
  "edits": [("utils/utils.py", "        if type == \"sha256\":", "        if type in \"sha256\":")],
  "demo": PRE + """try:
    Utils.hash_data(b'a', True, 'sha2')
except ValueError:
    sys.exit(0)
sys.exit(1)
"""},
 {"id": "c25-late-type-check", "property": "C25",
  "needs": "an empty value that is not bytes",
  "breaks": "empty text, an empty list and None are hashed as no bytes at all",
  "edits": [("utils/utils.py", "        if not isinstance(data, bytes):\n            raise TypeError(\"Data must be bytes.\")\n        if finalize:\n            hash_data = SHA256", "        if data and not isinstance(data, bytes):\n            raise TypeError(\"Data must be bytes.\")\n        if finalize:\n            hash_data = SHA256")],
  "demo": PRE + """try:
    Utils.sha256('')
except TypeError:
    sys.exit(0)
sys.exit(1)
"""},
]
