"""C03: failing and read-only operations change nothing."""
from pymt.mpt import MPT
from pymt.proof import Proof
from search import tries as T


def tries_of(t):
    yield t


def check(c):
    t, m = T.trie(c["secure"]), {}
    for op in c["ops"]:
        e = T.apply(t, op, m)
        if e:
            return "history fails: " + e
    ks = T.around(T.keys_of(c))[:40]
    was = T.snapshot(t)

    def same(what, k):
        if T.snapshot(t) != was:
            return "%s changes the trie: key %s" % (what, k.hex())
        return None

    # keys for which operations fail and succeed
    for k in ks:
        proofs = []
        for name, f in (("look-up", lambda: t.get(k)), ("item", lambda: t[k]), ("membership", lambda: t.contains(k)),
                        ("in", lambda: k in t),
                        ("hash", lambda: hash(t)),
                        ("inclusion proof", lambda: proofs.append(t.get_proof_of_inclusion(k))),
                        ("exclusion proof", lambda: proofs.append(t.get_proof_of_exclusion(k))),
                        ("root_hash", lambda: t.root_hash()), ("encode", lambda: t.encode())):
            try:
                f()
            except Exception:
                pass
            e = same(name, k)
            if e:
                return e
        for p in proofs:
            for es in (list(p.proof), list(p.proof)[1:], list(p.proof)[:-1], list(p.proof)[::-1], list(p.proof) * 2,
                       list(p.proof) + [b"\xc2\x20\x01", b"junk"]):
                q = Proof(p.target_key, p.trie_root, tuple(es), p.type)
                for f in (t.verify_proof_of_inclusion, t.verify_proof_of_exclusion):
                    try:
                        f(q)
                    except Exception:
                        pass
                    e = same("verification", k)
                    if e:
                        return e
                # a trie that was given the root only: nothing is added to its storage
                for other in ({}, {b"own": b"entry"}):
                    v = MPT(other, t.root(), t.secure)
                    before = (dict(other), v.root(), v.secure)
                    for f in (v.verify_proof_of_inclusion, v.verify_proof_of_exclusion):
                        try:
                            f(q)
                        except Exception:
                            pass
                        if (dict(other), v.root(), v.secure) != before:
                            return "verification changes the trie of another verifier: key %s" % k.hex()
        if k not in m:
            for f in (t.delete, t.__delitem__):
                try:
                    f(k)
                    return "deleting an absent key does not raise: key %s" % k.hex()
                except Exception:
                    pass
                if t.root_hash() != was[2] or t.root() != was[1]:
                    return "failing delete changes the root: key %s" % k.hex()
                e = same("failing delete", k)
                if e:
                    return e
    e = T.agree(t, m, ks)
    if e:
        return e
    # a stored value handed out does not give access to the trie's own data
    return None


cases = T.histories
