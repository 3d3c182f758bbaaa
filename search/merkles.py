"""Merkle trees as the documentation defines them, and histories of operations on them."""
import hashlib

from pymt.merkletools import MerkleTools
from pymt.mt import MerkleTree
from pymt.proof import Proof

ALGS = ["sha256", "md5", "sha224", "sha384", "sha512", "sha3_256", "sha3_224", "sha3_384", "sha3_512"]


def h(alg, b):
    return getattr(hashlib, alg)(b).digest()


def leaf(c, v):
    return h(c["alg"], v) if c["secure"] else v


def root(alg, l):
    while len(l) > 1:
        up = [h(alg, l[i] + l[i + 1]) for i in range(0, len(l) - 1, 2)]
        l = up + l[-1:] if len(l) % 2 else up
    return l[0]


def new(c):
    return (MerkleTree if c["tree"] else MerkleTools)(secure=c["secure"], hash_type=c["alg"].upper() if c.get("upper") else c["alg"])


def put(t, c, v, how=0):
    if not c["tree"]:
        t.add_leaf(bytearray(v) if how else v)
    elif how:
        t.put_list((v,))
    else:
        t.put(v)


def steps(alg, target, proof):
    """The hash the proof gives; None when a step is not one."""
    x = target
    for p in proof:
        if not (isinstance(p, tuple) and len(p) == 2 and p[0] in (b"left", b"right")):
            return None
        try:
            s = bytes.fromhex(p[1].decode())
        except ValueError:
            return None
        x = h(alg, s + x if p[0] == b"left" else x + s)
    return x


def values(rng, n):
    kind = rng.randrange(4)
    out = []
    for i in range(n):
        if kind == 0:
            out.append(b"%d" % i)
        elif kind == 1:
            out.append(bytes(rng.randrange(256) for _ in range(rng.randrange(0, 5))))
        elif kind == 2:
            out.append(rng.choice([b"", b"a", b"ab", b"b", b"aa"]))
        else:
            out.append(bytes(rng.randrange(256) for _ in range(rng.choice([1, 31, 32, 33, 64, 200]))))
    return [v.hex() for v in out]


def config(rng):
    return {"alg": rng.choice(ALGS[:2] + ALGS), "secure": rng.random() < .5, "tree": rng.random() < .7, "upper": rng.random() < .2}


def sizes(rng):
    yield from range(0, 70)
    yield from (100, 127, 128, 129, 255, 256, 257)
    while True:
        yield rng.choice([rng.randrange(1, 9), rng.randrange(1, 40), rng.randrange(1, 300)])
