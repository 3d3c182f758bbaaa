"""C18: a proof is accepted exactly when it gives the recorded root and that is the current root."""
import random

from search import merkles as M


def check(c):
    if c["alg"] not in M.ALGS:
        return None
    vs = [bytes.fromhex(x) for x in c["l"]]
    c = {**c, "tree": True}
    t = M.new(c)
    t.put_list(vs)
    if not vs:
        return None
    rng = random.Random(c["s"])
    leaves = [M.leaf(c, v) for v in vs]
    t.make_tree()

    def judge(p, what):
        root = M.root(c["alg"], leaves).hex().encode()
        x = M.steps(c["alg"], M.leaf(c, p.target_key), p.proof)
        try:
            r = bytes.fromhex(p.trie_root.decode())
        except ValueError:
            r = None
        good = x is not None and x == r and p.trie_root == root
        try:
            got = t.verify_proof_of_inclusion(p)
        except Exception as e:
            got = e if x is None or r is None else "exception %s" % type(e).__name__
        if good and got is not True:
            return "%s: rejected (%s)" % (what, got)
        if not good and got is True:
            return "%s: accepted (target %s, root %s, siblings %s)" % (what, p.target_key.hex(), p.trie_root, p.proof)
        if isinstance(got, str):
            return "%s: %s" % (what, got)
        return None

    def mk(k, r, s):
        return M.Proof(target_key=k, root_hash=r, proof=tuple(s), proof_type=b"MT-POI")
    root = M.root(c["alg"], leaves).hex().encode()
    honest = [t.get_proof_of_inclusion(v) for v in rng.sample(vs, min(3, len(vs)))]
    tests = []
    for p in honest:
        k, s = p.target_key, list(p.proof)
        tests += [("honest", p), ("other key", mk(k + b"\0", root, s)), ("other leaf", mk(rng.choice(vs), root, s)),
                  ("no siblings", mk(k, root, [])), ("leaf as root", mk(k, M.leaf(c, k).hex().encode(), [])),
                  ("key as root", mk(k, k.hex().encode(), [])), ("root as key", mk(bytes.fromhex(root.decode()), root, [])),
                  ("upper case root", mk(k, root.upper(), s)), ("root with spaces", mk(k, root[:2] + b" " + root[2:], s)),
                  ("empty root", mk(k, b"", s)), ("hashed key", mk(M.leaf(c, k), root, s)), ("doubled", mk(k, root, s + s)),
                  ("twice hashed key", mk(M.h(c["alg"], k), root, s))]
        x = M.leaf(c, k)
        for i, (side, sib) in enumerate(s):
            other = b"left" if side == b"right" else b"right"
            for name, e in (("side", (other, sib)), ("sibling", (side, b"00" + sib[2:])), ("short sibling", (side, sib[:-2])),
                            ("no sibling", (side, b"")), ("upper case", (side, sib.upper())), ("bad hex", (side, b"zz" + sib)),
                            ("bad side", (b"up", sib)), ("Left", (side.title(), sib))):
                tests.append(("%s %d changed" % (name, i), mk(k, root, s[:i] + [e] + s[i + 1:])))
            tests += [("%d dropped" % i, mk(k, root, s[:i] + s[i + 1:])), ("starts at %d" % i, mk(x, root, s[i:])),
                      ("cut at %d" % i, mk(k, root, s[:i])), ("cut at %d, root of it" % i, mk(k, x.hex().encode(), s[:i])),
                      ("extra %d" % i, mk(k, root, s[:i] + [s[i]] + s[i:]))]
            x = M.steps(c["alg"], x, [s[i]])
        if len(s) > 1:
            tests.append(("swapped", mk(k, root, s[::-1])))
        extra = [(b"left", b"ab" * 3)]
        y = M.steps(c["alg"], M.leaf(c, k), s + extra)
        tests.append(("own root", mk(k, y.hex().encode(), s + extra)))
    for what, p in tests:
        m = judge(p, what)
        if m:
            return m
    # the tree goes on
    w = bytes.fromhex(c["more"])
    t.put(w)
    leaves.append(M.leaf(c, w))
    if c["s"] % 2:
        t.make_tree()
    for p in honest:
        m = judge(p, "stale")
        if m:
            return m
    p = t.get_proof_of_inclusion(w) if t.is_ready else None
    if p is not None:
        m = judge(p, "fresh")
        if m:
            return m
    t.reset_tree()
    leaves = [M.leaf(c, w)]
    t.put(w)
    for p in honest:
        m = judge(p, "stale after reset")
        if m:
            return m
    return None


def cases(rng):
    for n in M.sizes(rng):
        yield {**M.config(rng), "l": M.values(rng, n), "more": M.values(rng, 1)[0], "s": rng.randrange(1000)}
