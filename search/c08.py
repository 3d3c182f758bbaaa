"""C08: an accepted exclusion proof means the key is absent (altered and forged proofs)."""
from pymt.proof import Proof
from pymt.mpt import MPT
from search import tries as T
from search.c06 import POE, attempts, material, path_of


def check(c):
    x = material(c)
    if x is None:
        return None
    rng, t, m, tries, pool = x
    have = set(path_of(t, k) for k in m)
    # also from a trie in which the present keys are absent
    few = T.trie(t.secure)
    for i, k in enumerate(sorted(m)):
        if i % 2:
            few.update(k, m[k])
    verifiers = [t, MPT({}, t.root(), t.secure)]
    for tg, root, es in attempts(c, rng, t, tries + [few], pool):
        if tg not in have:
            continue
        p = T.call(Proof, tg, root, tuple(es), POE)
        if p is None:
            continue
        for v in verifiers:
            if T.accepted(v.verify_proof_of_exclusion, p):
                return "an exclusion proof of a present key is accepted: path %s, %d entries %s" % (
                    tg.hex(), len(es), [bytes(e).hex() for e in es])
    return None


def cases(rng):
    """Few of the big tries: every proof is tried in many forms."""
    for c in T.proof_cases(rng):
        if len(c["ops"]) < 16 or rng.random() < 0.2:
            yield c
