"""C06: an accepted inclusion proof means the key is in the trie (altered and forged proofs)."""
import random
from pymt.proof import Proof
from pymt.utils.node import Leaf
from pymt.utils.nibble_path import NibblePath
from search import tries as T

POI, POE = b"MPT-POI", b"MPT-POE"


def path_of(t, k):
    return T.kk(k) if t.secure else k


def material(c):
    """Verifier, its content by path, other tries with their content, a pool of encoded nodes."""
    t, m, e = T.built(c)
    if e:
        return None
    rng = random.Random(c["seed"])
    # a neighbour: the same trie with changes, and one in which everything asked for is present
    n, nm, e = T.built({"secure": c["secure"], "ops": c["ops"] + T.rops(rng, 4)})
    if e:
        return None
    full = T.trie(c["secure"])
    for k in T.around(T.keys_of(c))[:30]:
        full.update(k, b"forged value")
    pool = T.nodes_from(t) + T.nodes_from(n) + T.nodes_from(full)
    return rng, t, m, [t, n, full], pool


def attempts(c, rng, t, tries, pool):
    """Proof objects: honest ones of these tries, re-targeted, altered, forged."""
    ks = T.around(T.keys_of(c))[:24]
    for k in ks:
        honest = []
        for o in tries:
            for f in (o.get_proof_of_inclusion, o.get_proof_of_exclusion):
                p = T.call(f, k)
                if p is not None:
                    honest.append(p)
        targets = [path_of(t, k)]
        if ks:
            targets.append(path_of(t, T.pick(rng, ks)))
        targets.append(targets[0][:-1])
        targets.append(targets[0] + b"\x00")
        for p in honest:
            for tg in targets:
                for root in (t.root_hash(), t.root() or b"", p.trie_root):
                    yield tg, root, p.proof
            for _ in range(4):
                es = T.forged(rng, p.proof, pool)
                yield targets[0], t.root_hash(), es
        # the trie's own root node followed by nodes of another trie
        mine = T.call(t.get_proof_of_inclusion, T.pick(rng, ks)) or T.call(t.get_proof_of_exclusion, k)
        if mine is not None and honest:
            o = T.pick(rng, honest)
            yield targets[0], t.root_hash(), list(mine.proof[:1]) + list(o.proof[1:])
            yield targets[0], t.root_hash(), list(mine.proof) + list(o.proof)
            leaf = Leaf(NibblePath(targets[0]), b"x").encode()
            yield targets[0], t.root_hash(), list(mine.proof[:1]) + [leaf]
            null = Leaf(NibblePath(b""), b"null").encode()
            for cut in range(1, len(mine.proof) + 1):
                yield targets[0], t.root_hash(), list(mine.proof[:cut]) + [null]
                yield targets[0], t.root_hash(), list(o.proof[:cut]) + [null]
        yield targets[0], t.root_hash(), [Leaf(NibblePath(targets[0]), b"x").encode()]
        yield targets[0], t.root_hash(), []


def check(c):
    x = material(c)
    if x is None:
        return None
    rng, t, m, tries, pool = x
    have = set(path_of(t, k) for k in m)
    from pymt.mpt import MPT
    verifiers = [t, MPT({}, t.root(), t.secure)]
    for tg, root, es in attempts(c, rng, t, tries, pool):
        if tg in have:
            continue
        p = T.call(Proof, tg, root, tuple(es), POI)
        if p is None:
            continue
        for v in verifiers:
            if T.accepted(v.verify_proof_of_inclusion, p):
                return "an inclusion proof of an absent key is accepted: path %s, %d entries %s" % (
                    tg.hex(), len(es), [bytes(e).hex() for e in es])
    return None


def cases(rng):
    """Few of the big tries: every proof is tried in many forms."""
    for c in T.proof_cases(rng):
        if len(c["ops"]) < 16 or rng.random() < 0.2:
            yield c
