"""C14: views and a rebuild agree with the full trie."""
from pymt.empt import EMPT, SparseEMPT, RootEMPT
from search import extended as X, tries as T


def verdict(t, p):
    f = t.verify_proof_of_inclusion if p.type == b"MPT-POI" else t.verify_proof_of_exclusion
    try:
        return f(p) is True
    except Exception:
        return False


def proofs_of(t, keys):
    out = []
    for k in keys:
        for f in (t.get_proof_of_inclusion, t.get_proof_of_exclusion):
            try:
                out.append(f(k))
            except Exception:
                pass
    return out


def views(t, what=""):
    s = t.get_sparse_trie()
    vs = [("sparse view", s), ("root view", t.get_root_trie()), ("root view of the sparse view", s.get_root_trie())]
    vs.append(("decoded sparse view", SparseEMPT.decode_rlp(s.encode_rlp())))
    vs.append(("decoded root view", RootEMPT.decode_rlp(t.get_root_trie().encode_rlp())))
    return vs


def compare(t, vs, m, keys, ps, root, sec):
    for n, v in vs:
        if v.root_hash() != root:
            return "root hash of the %s" % n
        if v._trie.secure != sec or isinstance(v, RootEMPT) and v.secure != sec:
            return "mode of the %s" % n
        for p, ok in ps:
            if verdict(v, p) != ok:
                return "verdict of the %s on a proof of key %s is %s" % (n, p.target_key.hex(), not ok)
        if isinstance(v, SparseEMPT):
            e = X.refs(v, m, keys, " in the " + n)
            if e:
                return e
            for k in keys:
                if v.contains(k) != (k in m) or (k in v) != (k in m):
                    return "membership in the %s: key %s" % (n, k.hex())
                try:
                    v[k]
                    return "the %s returns data" % n
                except TypeError:
                    pass
    return None


def check(c):
    sec = c["secure"]
    t, m = X.make(c), {}
    fed = SparseEMPT(secure=sec)
    mf = {}
    ks = T.around(T.keys_of(c))[:16]
    old = []
    strange = []
    for i, op in enumerate(c["ops"]):
        e = X.apply(t, op, m) or X.apply(fed, op, mf)
        if e:
            return e
        if fed.root_hash() != t.root_hash() or bytes(fed.root() or b"") != bytes(t.root() or b""):
            return "a sparse trie fed the same updates has another root hash"
        if len(c["ops"]) < 8 or i == len(c["ops"]) - 1 or i == len(c["ops"]) // 2:
            vs = views(t)
            here = proofs_of(t, ks)
            ps = [(p, verdict(t, p)) for p in here + strange]
            for p in here:
                if not verdict(t, p):
                    return "own proof of key %s is rejected" % p.target_key.hex()
            sp = [(p.target_key, p.proof, p.type) for p in proofs_of(vs[0][1], ks)]
            if sp != [(p.target_key, p.proof, p.type) for p in here]:
                return "proofs by the sparse view differ"
            strange = here[:6]
            e = compare(t, vs, m, ks, ps, t.root_hash(), sec) or compare(t, [("fed sparse trie", fed)], m, ks, ps, t.root_hash(), sec)
            if e:
                return e
            old.append((vs, dict(m), ps, t.root_hash()))
    for vs, mm, ps, r in old:
        e = compare(t, vs, mm, ks, ps, r, sec)
        if e:
            return "after later changes: " + e
    # changing a view does not change the original
    if old:
        s = t.get_sparse_trie()
        s.update(b"another key", b"v")
        e = X.agree(t, m, ks, " after a view was changed")
        if e:
            return e
        if s.root_hash() == t.root_hash() and b"another key" not in m:
            return "updating a sparse view does not change its root hash"
    # rebuilding, also without the nodes
    r = t.root_hash()
    kept, km = t.get_sparse_trie(), dict(m)
    kps = [(p, verdict(t, p)) for p in proofs_of(t, ks)]
    for op in [["del", k.hex()] for k in list(m)[:2]] + [["put", "77", "78", "b"]]:
        e = X.apply(t, op, m)
        if e:
            return e
    t.build_trie()
    e = compare(t, [("earlier sparse view", kept)], km, ks, kps, r, sec)
    if e:
        return "after changing and rebuilding the original: " + e
    r = t.root_hash()
    t.build_trie()
    n = EMPT(data_storage=dict(t._data_storage), secure=sec)
    n.build_trie()
    for x, w in ((t, " after a rebuild"), (n, " built from the data")):
        if x.root_hash() != r:
            return "root hash%s" % w
        if x._trie.secure != sec:
            return "mode%s" % w
        e = X.agree(x, m, ks, w) or X.refs(x, m, ks, w)
        if e:
            return e
    mm = dict(m)
    for op in c["ops"][:3]:
        e = X.apply(t, op, mm)
        if e:
            return "after a rebuild: " + e
    return X.agree(t, mm, ks, " after a rebuild and changes")


cases = X.histories
