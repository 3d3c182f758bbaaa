PRE='''
import sys, json, rlp
from pymt.proof import Proof
from pymt.mt import MerkleTree
def P(key=b"key", root=b"ab" * 32, es=(), ty=b"MT-POI", ts=b"2024-01-01 00:00:00"):
    p = Proof(target_key=key, root_hash=root, proof=es, proof_type=ty)
    p._timestamp = ts
    return p
def tree(vs, secure=True):
    t = MerkleTree(secure=secure)
    t.put_list(vs)
    t.make_tree()
    return t
'''
BUGS=[
 dict(id="c19-equality-shortcut", property="C19",
  needs="two proofs of the same key and root taken at the same time with different siblings (one of them tampered with)",
  breaks="proofs with different entries are equal",
  edits=[("proof.py", '''        return {
            "proof_type": self._type,
            "timestamp": self._timestamp,
            "target_key": self._target_key,
            "root_hash": self.trie_root,
            "proof": self._proof,
        }
''','''        return {
            "proof_type": self._type,
            "timestamp": self._timestamp,
            "target_key": self._target_key,
            "root_hash": self.trie_root,
            "proof": self._proof,
        }

    def _content(self) -> str:
        """Return the fields of the proof as text."""
        entries = [b"".join(i) if isinstance(i, tuple) else i for i in self._proof]
        return str((*list(self.__dict__().values())[:-1], entries))
'''),("proof.py",'''        return self.__hash__() == other.__hash__()
''','''        return self._content() == other._content()
''')],
  demo=PRE+'''
a, b = P(es=((b"left", b"ab"), (b"right", b"cd"))), P(es=((b"leftab", b""), (b"right", b"cd")))
sys.exit(1 if a == b or P(es=((b"a",),)) == P(es=(b"a",)) else 0)
'''),
 dict(id="c19-hex-key", property="C19",
  needs="a proof whose target key is not valid UTF-8, or whose key begins with the marker",
  breaks="a key beginning with 0x comes back as other bytes after JSON",
  edits=[("proof.py", '''                content[key] = value.decode()
''','''                try:
                    content[key] = value.decode()
                except UnicodeDecodeError:
                    content[key] = "0x" + value.hex()
'''),("proof.py",'''            target_key=json_proof["target_key"].encode(),
''','''            target_key=(
                bytes.fromhex(json_proof["target_key"][2:])
                if json_proof["target_key"].startswith("0x")
                else json_proof["target_key"].encode()
            ),
''')],
  demo=PRE+'''
for k in (b"key", b"0xab", b"0xABCD", b"x"):
    try:
        if Proof.decode_json(P(k).encode_json()) != P(k):
            sys.exit(1)
    except ValueError:
        sys.exit(1)
sys.exit(0)
'''),
 dict(id="c19-short-entries", property="C19",
  needs="an entry which is a tuple of one byte string",
  breaks="it comes back from RLP as the byte string alone",
  edits=[("proof.py", '''        entries = [tuple(i) if isinstance(i, list) else i for i in decoded[4]]
''','''        entries = [
            tuple(i) if not isinstance(i, bytes) and len(i) > 1 else b"".join(i) if isinstance(i, list) else i
            for i in decoded[4]
        ]
''')],
  demo=PRE+'''
for es in ((b"a",), ((b"left", b"ab"),), ((b"ab",), (b"l", b"r"))):
    if Proof.decode_rlp(P(es=es).encode_rlp()) != P(es=es):
        sys.exit(1)
sys.exit(0)
'''),
 dict(id="c19-timestamp-microseconds", property="C19",
  needs="a proof made at an exact second, whose time has no fraction",
  breaks="its time comes back with another text, so the proofs differ",
  edits=[("proof.py", '''        proof._timestamp = json_proof["timestamp"].encode()
''','''        proof._timestamp = json_proof["timestamp"].encode()
        if b"." not in proof._timestamp:
            proof._timestamp += b".000000"
''')],
  demo=PRE+'''
for ts in (b"2024-01-01 10:00:00.000001", b"2024-01-01 10:00:00"):
    if Proof.decode_json(P(ts=ts).encode_json()) != P(ts=ts):
        sys.exit(1)
sys.exit(0)
'''),
 dict(id="c19-type-part", property="C19",
  needs="a type which is the beginning of a known one",
  breaks="an unknown type is accepted",
  edits=[("proof.py", '''        if proof_type not in self.accepted_types:
''','''        if not any(t.startswith(proof_type) for t in self.accepted_types):
''')],
  demo=PRE+'''
for t in (b"MT-PO", b"MPT", b"M", b""):
    try:
        P(ty=t)
    except TypeError:
        continue
    sys.exit(1)
sys.exit(0)
'''),
 dict(id="c19-text-keys-ascii", property="C19",
  needs="a Merkle tree whose value is text outside ASCII",
  breaks="its key comes back from JSON as other bytes",
  edits=[("proof.py", '''            else:
                content[key] = value.decode()
''','''            else:
                content[key] = value.decode("latin-1" if key == "target_key" else "utf-8")
'''),("proof.py",'''            target_key=json_proof["target_key"].encode(),
''','''            target_key=json_proof["target_key"].encode("ascii", "replace"),
''')],
  demo=PRE+'''
t = tree([b"a", "\\u00e9".encode()])
for v in (b"a", "\\u00e9".encode()):
    p = t.get_proof_of_inclusion(v)
    if Proof.decode_json(p.encode_json()) != p:
        sys.exit(1)
sys.exit(0)
'''),
 dict(id="c19-hash-truncated-time", property="C19",
  needs="two proofs of the same data whose times differ only in the fraction of a second",
  breaks="they are equal",
  edits=[("proof.py", '''        return self.__hash__() == other.__hash__()
''','''        return {**self.__dict__(), "timestamp": self._timestamp[:19]} == {
            **other.__dict__(), "timestamp": other._timestamp[:19]
        }
''')],
  demo=PRE+'''
a, b = P(ts=b"2024-01-01 10:00:00.000001"), P(ts=b"2024-01-01 10:00:00.000002")
sys.exit(1 if a == b or not a == P(ts=a._timestamp) else 0)
'''),
 dict(id="c19-binary-siblings", property="C19",
  needs="a Merkle tree with several values; get_proof_of_inclusion and the encoder each look fine alone",
  breaks="proofs of a Merkle tree hold raw digests, which JSON cannot hold",
  edits=[("proof.py", '''                self._proof,
            ]
        )
''','''                list(dict.fromkeys(self._proof)),
            ]
        )
''')],
  demo=PRE+'''
t = tree([b"a"] * 5, secure=False)
p = t.get_proof_of_inclusion(b"a")
q = P(es=((b"left", b"ab"), (b"right", b"cd"), (b"left", b"ab")))
sys.exit(0 if Proof.decode_rlp(p.encode_rlp()) == p and Proof.decode_rlp(q.encode_rlp()) == q else 1)
'''),
]
BUGS[-1].update(id="c19-repeated-entries", needs="a proof with the same entry twice", breaks="the repeats are lost in RLP")
