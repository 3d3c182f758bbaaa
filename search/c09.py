"""C09: a serialised trie reads back as the same trie."""
from pymt.mpt import MPT
from search import tries as T


def check(c):
    t, m, e = T.built(c)
    if e:
        return None
    before = T.snapshot(t)
    b = T.call(t.encode)
    if b is None:
        return "encoding raises"
    u = T.call(MPT.decode, b)
    if u is None:
        return "decoding raises: %s" % b.hex()[:200]
    if T.snapshot(t) != before:
        return "encoding changes the trie"
    if u.root_hash() != t.root_hash():
        return "root hash differs: %r %r" % (u.root_hash(), t.root_hash())
    if u.secure != t.secure:
        return "mode differs"
    ks = T.around(T.keys_of(c))[:60]
    e = T.agree(u, m, ks, " in the decoded trie")
    if e:
        return e
    # the decoded trie owns its storage
    snap = T.snapshot(t)
    for k in ks[:6]:
        u.update(k, b"changed " * 6)
    if T.snapshot(t) != snap:
        return "changing the decoded trie changes the original"
    v = T.call(MPT.decode, b)
    if v is None or v.root_hash() != t.root_hash() or T.agree(v, m, ks):
        return "decoding twice gives something else"
    su = T.snapshot(u)
    for k in ks[:6]:
        t.update(k, b"other " * 8)
    if T.snapshot(u) != su:
        return "changing the original changes the decoded trie"
    # and again
    w = T.call(MPT.decode, u.encode())
    if w is None or w.root_hash() != u.root_hash():
        return "second round trip differs"
    return None


cases = T.proof_cases
