"""C16: the root is the specified hash of the current leaves, after every history."""
from search import merkles as M


def check(c):
    if c["alg"] not in M.ALGS:
        return None
    t, leaves, old = M.new(c), [], []

    def roots(what):
        want = M.root(c["alg"], leaves).hex() if leaves else None
        for again in range(2):
            try:
                r = t.get_merkle_root()
            except ValueError:
                r = "error"
            if c["tree"]:
                if r != (want.encode() if leaves else "error"):
                    return "root %r after %s, not %r" % (r, what, want)
            elif r != "error" and r != want:
                return "root %r after %s, not %r" % (r, what, want)
            elif r == "error" and t.get_tree_ready_state() and leaves:
                return "no root of a ready tree after %s" % what
        return None
    done = []
    for op in c["ops"]:
        done.append(op[0])
        what = ",".join(done)
        if op[0] == "put" and len(op) > 1:
            v = bytes.fromhex(op[1])
            M.put(t, c, v, len(done) % 2)
            leaves.append(M.leaf(c, v))
        elif op[0] == "list" and c["tree"]:
            l = [bytes.fromhex(x) for x in op[1:]]
            t.put_list(l if len(done) % 2 else tuple(l))
            leaves += [M.leaf(c, v) for v in l]
        elif op[0] == "make":
            t.make_tree()
            if not c["tree"] and leaves:
                if t.get_merkle_root() != M.root(c["alg"], leaves).hex():
                    return "wrong root after %s" % what
        elif op[0] == "reset":
            t.reset_tree()
            leaves = []
        elif op[0] == "root":
            m = roots(what)
            if m:
                return m
        elif op[0] == "proof" and leaves:
            try:
                p = t.get_proof_of_inclusion(bytes.fromhex(op[1]) if len(op) > 1 else b"")
            except ValueError:
                p = None
            if p is not None and c["tree"] and p.trie_root != M.root(c["alg"], leaves).hex().encode():
                return "outdated root in a proof after %s" % what
            if p is not None and c["tree"] and M.steps(c["alg"], M.leaf(c, p.target_key), p.proof) != M.root(c["alg"], leaves):
                return "outdated proof after %s" % what
        if len(t) != len(leaves) or t.get_leaf_count() != len(leaves):
            return "%d leaves after %s, not %d" % (len(t), what, len(leaves))
        for i in range(0, len(leaves), max(1, len(leaves) // 5)):
            if t.get_leaf(i) != leaves[i].hex():
                return "leaf %d is %s after %s" % (i, t.get_leaf(i), what)
    m = roots("all")
    if m:
        return m
    if not c["tree"] and leaves:
        t.make_tree()
        if t.get_merkle_root() != M.root(c["alg"], leaves).hex():
            return "wrong root of %d leaves" % len(leaves)
    return None


def cases(rng):
    for n in M.sizes(rng):
        c = M.config(rng)
        vs = M.values(rng, n)
        if rng.random() < .5:
            c["ops"] = [["put", v] for v in vs]
        else:
            c["ops"] = []
            while vs and len(c["ops"]) < 60:
                k = rng.randrange(8)
                if k < 3:
                    c["ops"].append(["put", vs.pop()])
                elif k == 3 and c["tree"]:
                    j = rng.randrange(0, 5)
                    c["ops"].append(["list"] + vs[:j])
                    vs = vs[j:]
                else:
                    c["ops"].append(["make"] if k == 4 else ["root"] if k < 6 else ["proof", rng.choice(vs)] if k == 6
                                    else rng.choice([["reset"], ["root"], ["make"]]))
        yield c
