"""C17: every leaf has an inclusion proof that verifies; other values have none."""
from search import merkles as M


def check(c):
    if c["alg"] not in M.ALGS:
        return None
    vs = [bytes.fromhex(x) for x in c["l"]]
    t = M.new(c)
    for i, v in enumerate(vs):
        M.put(t, c, v, i % 2)
    t.make_tree()
    leaves = [M.leaf(c, v) for v in vs]
    idx = range(len(vs)) if len(vs) < 20 else sorted({0, 1, len(vs) // 2, len(vs) - 2, len(vs) - 1, len(vs) * 2 // 3})
    for i in idx:
        try:
            p = t.get_proof_of_inclusion(vs[i])
        except Exception as e:
            return "no proof of leaf %d of %d: %s %s" % (i, len(vs), type(e).__name__, e)
        if c["tree"]:
            if p.target_key != vs[i] or p.trie_root != t.get_merkle_root() or p.type != b"MT-POI":
                return "wrong proof of leaf %d of %d: %r" % (i, len(vs), p)
            for what, o in (("the tree", t), ("the tree again", t), ("a tree of the same leaves", M.new(c))):
                if o is not t:
                    o.put_list(vs)
                if o.verify_proof_of_inclusion(p) is not True:
                    return "%s rejects the proof of leaf %d of %d" % (what, i, len(vs))
        else:
            r = bytes.fromhex(t.get_merkle_root())
            if t.verify_proof_of_inclusion(p, leaves[i], r) is not True:
                return "proof of leaf %d of %d rejected" % (i, len(vs))
    for v in [b"absent", b"", b"\0"] + [v + b"\0" for v in vs[:3]] + [v[:-1] for v in vs[:3]] + leaves[:3] \
            + [v.hex().encode() for v in vs[:2]]:
        if M.leaf(c, v) not in leaves:
            try:
                p = t.get_proof_of_inclusion(v)
            except Exception:
                continue
            return "proof of an absent value %r" % v
    return None


def cases(rng):
    for n in M.sizes(rng):
        for alg in ([rng.choice(M.ALGS)] if n > 6 else M.ALGS):
            yield {**M.config(rng), "alg": alg, "l": M.values(rng, n)}
