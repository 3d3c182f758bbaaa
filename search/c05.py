"""C05: every present key has an inclusion proof that verifies; an absent one has none."""
from search import tries as T


def check(c):
    t, m, e = T.built(c)
    if e:
        return e
    ks = T.keys_of(c)
    for k in T.around(ks[:20] + sorted(ks, key=len)[-20:])[:60]:
        p = T.call(t.get_proof_of_inclusion, k)
        if k not in m:
            if p is not None:
                return "an absent key gets an inclusion proof: key %s" % k.hex()
            continue
        if p is None:
            return "no inclusion proof for a present key: key %s" % k.hex()
        for what, o in T.holders(t, m):
            if not T.accepted(o.verify_proof_of_inclusion, p):
                return "inclusion proof rejected by %s: key %s" % (what, k.hex())
            if not T.accepted(o.verify_proof_of_inclusion, p):
                return "inclusion proof rejected the second time by %s: key %s" % (what, k.hex())
    return None


cases = T.proof_cases
