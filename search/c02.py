"""C02: the root hash is a canonical fingerprint of the content."""
import random

from pymt.mpt import MPT
from search import tries as T


def build(secure, items):
    t = T.trie(secure)
    for k, v in items:
        t.update(k, v)
    return t


def check(c):
    t, m = T.trie(c["secure"]), {}
    empty = MPT({}, secure=c["secure"]).root_hash()
    roots = {}
    for op in c["ops"]:
        e = T.apply(t, op, m)
        if e:
            return "history fails: " + e
        r = t.root_hash()
        key = tuple(sorted(m.items()))
        if roots.setdefault(r, key) != key:
            return "equal roots for different contents: %r and %r" % (roots[r], key)
        roots[r] = key
        for r2, k2 in roots.items():
            if k2 == key and r2 != r:
                return "different roots for the content %r" % (key,)
        if (not m) != (r == empty):
            return "root of an empty trie: content %r" % (key,)
    rng = random.Random(len(c["ops"]))
    items = list(m.items())
    for _ in range(2):
        rng.shuffle(items)
        b = build(c["secure"], items)
        if b.root_hash() != t.root_hash():
            return "history matters: content %r" % (sorted(m.items()),)
        if not (b == t) or not (t == b) or b != t:
            return "== on tries with equal roots: %r" % (sorted(m.items()),)
        if hash(b) != hash(t):
            return "hash() of equal tries: %r" % (sorted(m.items()),)
    other = build(c["secure"], items + [(b"another key", b"v")])
    if other == t or not (other != t) or other.root_hash() == t.root_hash():
        return "== on different tries: %r" % (sorted(m.items()),)
    for k in list(m):
        other.delete(k)
    other.delete(b"another key")
    if other.root_hash() != empty or not (other == MPT({}, secure=c["secure"])):
        return "emptied trie differs from a new one: %r" % (sorted(m.items()),)
    return None


def cases(rng):
    for c in T.histories(rng):
        c["ops"] = [o for o in c["ops"] if bytes.fromhex(o[1]) != b"another key"]
        yield c
