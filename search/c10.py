"""C10: nodes round-trip, references are faithful."""
import rlp
from Crypto.Hash import keccak
from pymt.utils.nibble_path import NibblePath
from pymt.utils.node import Branch, Extension, Leaf, Node


def kk(b):
    return keccak.new(data=b, digest_bits=256).digest()


def nibs(p):
    return [p.at(i) for i in range(len(p))]


def hp(s, leaf):
    out = [(32 if leaf else 0) + (16 + s[0] if len(s) % 2 else 0)]
    r = s[len(s) % 2:]
    return bytes(out + [16 * r[i] + r[i + 1] for i in range(0, len(r), 2)])


def mkpath(s):
    data = bytes([s[0]] if len(s) % 2 else []) + bytes(
        16 * s[i] + s[i + 1] for i in range(len(s) % 2, len(s), 2))
    return NibblePath(data, len(s) % 2)


def ref(d):
    """[] empty; ["h", n] hash; ["n", path, data] reference of a small leaf"""
    if not d:
        return b""
    if d[0] == "h":
        return bytes([d[1] % 256]) * 32
    x = rlp.encode([hp([n % 16 for n in d[1]], True), bytes.fromhex(d[2])])
    return x if len(x) < 32 else kk(x)


def item(r):
    return rlp.decode(r) if 0 < len(r) < 32 else r


def build(c):
    p = [n % 16 for n in c["p"]]
    d = bytes.fromhex(c["d"])
    if c["k"] == "leaf":
        return Leaf(mkpath(p), d), ("leaf", p, d), rlp.encode([hp(p, True), d])
    if c["k"] == "ext":
        r = ref(c["r"][0] if c["r"] else [])
        return Extension(mkpath(p), r), ("ext", p, r), rlp.encode([hp(p, False), item(r)])
    rs = [ref(x) for x in (list(c["r"]) + [[]] * 16)[:16]]
    return Branch(list(rs), d), ("branch", rs, d), rlp.encode([item(r) for r in rs] + [d])


def view(n):
    if type(n) is Leaf:
        return ("leaf", nibs(n.path), n.data)
    if type(n) is Extension:
        return ("ext", nibs(n.path), n.next_ref)
    if type(n) is Branch:
        return ("branch", list(n.branches), n.data)
    return ("?", type(n))


def check(c):
    seen = []
    for x in c["nodes"]:
        n, want, enc = build(x)
        if view(n) != want:
            return "node holds %r instead of %r" % (view(n), want)
        e = n.encode()
        if e != enc:
            return "encoding %s instead of %s" % (e.hex(), enc.hex())
        if view(n) != want:
            return "encoding changed the node %r" % (want,)
        m = Node.decode(e)
        if view(m) != want:
            return "decoded %r from %r" % (view(m), want)
        if m.encode() != e:
            return "encoding of the decoded node differs for %r" % (want,)
        r = Node.into_reference(n)
        if r != (enc if len(enc) < 32 else kk(enc)):
            return "reference %s for %r" % (r.hex(), want)
        seen.append((want, r))
    for i in range(len(seen)):
        for j in range(i):
            if (seen[i][0] == seen[j][0]) != (seen[i][1] == seen[j][1]):
                return "references of %r and %r" % (seen[i][0], seen[j][0])
    # nodes built with and without explicit values do not share anything
    n, want, enc = build(c["nodes"][0]) if c["nodes"] else (Leaf(mkpath([1]), b"x"), ("leaf", [1], b"x"), None)
    m = Node.decode(n.encode())
    if type(m) is Branch:
        m.branches[0] = b"\x01" * 32
        m.data = b"changed"
        if view(n) != want or view(Node.decode(n.encode())) != want:
            return "decoded node shares state"
    return None


def rref(rng):
    k = rng.random()
    if k < 0.4:
        return []
    if k < 0.6:
        return ["h", rng.choice([0, 1, 128, 255, rng.randrange(256)])]
    n = rng.choice([rng.randrange(0, 7), rng.randrange(0, 60)])
    m = rng.choice([rng.randrange(1, 9), rng.randrange(1, max(2, 30 - n // 2))])
    z = [0, 1, 127, 128, 255, rng.randrange(256)]
    return ["n", [rng.randrange(16) for _ in range(n)], bytes(rng.choice(z) for _ in range(m)).hex()]


def one(rng):
    k = rng.choice(["leaf", "ext", "branch"])
    n = rng.choice([0, 1, 2, 3, 5, 8, 64, rng.randrange(0, 20)])
    # around the length where references become hashes
    m = rng.choice([0, 1, 2, 20, 25, 26, 27, 28, 29, 30, 31, 32, 33, 55, 56, 60, rng.randrange(0, 300)])
    d = bytes(rng.choice([0, 127, 128, 192, 255, rng.randrange(256)]) for _ in range(m))
    nr = rng.choice([1, 2, 16, 16])
    return {"k": k, "p": [rng.randrange(16) for _ in range(n)], "d": d.hex(),
            "r": [rref(rng) for _ in range(nr)]}


def cases(rng):
    for k in ("leaf", "ext", "branch"):
        for n in range(0, 5):
            for m in list(range(0, 36)) + [55, 56, 57]:
                yield {"nodes": [{"k": k, "p": [15 - i for i in range(n)], "d": "ab" * m,
                                  "r": [["n", [1] * (m % 9), "cd" * (1 + m // 2)], ["h", m]]}]}
    for i in range(16):
        yield {"nodes": [{"k": "branch", "p": [], "d": "", "r": [[]] * i + [["h", i + 1]]},
                         {"k": "branch", "p": [], "d": "00", "r": [[]] * i + [["n", [i], "05"]]}]}
    while True:
        yield {"nodes": [one(rng) for _ in range(rng.randrange(1, 5))]}
