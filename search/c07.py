"""C07: every absent key has an exclusion proof that verifies; a present one has none."""
from search import tries as T


def check(c):
    t, m, e = T.built(c)
    if e:
        return e
    for k in T.around(T.keys_of(c))[:40]:
        p = T.call(t.get_proof_of_exclusion, k)
        if k in m:
            if p is not None:
                return "a present key gets an exclusion proof: key %s" % k.hex()
            continue
        if not m:
            continue
        if p is None:
            return "no exclusion proof for an absent key: key %s" % k.hex()
        for what, o in T.holders(t, m):
            if not T.accepted(o.verify_proof_of_exclusion, p):
                return "exclusion proof rejected by %s: key %s" % (what, k.hex())
            if not T.accepted(o.verify_proof_of_exclusion, p):
                return "exclusion proof rejected the second time by %s: key %s" % (what, k.hex())
    return None


cases = T.proof_cases
