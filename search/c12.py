"""C12: the extended trie is a map; instances are independent."""
from pymt.empt import EMPT
from search import extended as X, tries as T


class Bad:
    def encode_rlp(self):
        return b"x"


def check(c):
    ts, ds = {}, {}
    t, m = X.make(c, ts, ds), {}
    o, mo = X.make({**c, "own": c["pick"] % 4}), {}
    e = X.agree(t, {}, [b"", b"a"], " when new")
    if e:
        return e
    ks = T.around(T.keys_of(c))[:30]
    for i, op in enumerate(c["ops"]):
        e = X.apply(t, op, m)
        if e:
            return e
        if i % 3 == c["pick"] % 3:          # the other instance has its own history
            e = X.apply(o, op, mo)
            if e:
                return "other instance: " + e
        if i % 4 == 0:
            for bad in (5, None, "x", [1], Bad()):
                try:
                    t.update(ks[i % len(ks)], bad)
                except NotImplementedError:
                    continue
                except Exception as ex:
                    return "storing %r raises %r" % (bad, ex)
                return "storing %r is accepted" % (bad,)
        if len(c["ops"]) < 12 or i % 5 == 0 or i == len(c["ops"]) - 1:
            e = X.agree(t, m, ks, "") or X.agree(o, mo, ks, " in another instance")
            if e:
                return e
    if c["own"] & 2 and t._data_storage is not ds:
        return "does not use the data storage passed"
    # opened again on the same storages
    if m:
        n = EMPT(trie_storage=t._trie._storage, data_storage=t._data_storage, root=t.root(), secure=c["secure"])
        e = X.agree(n, m, ks, " when opened again")
        if e:
            return e
        try:
            EMPT(trie_storage=t._trie._storage, data_storage={})
            return "nodes without a root are accepted"
        except ValueError:
            pass
    f = EMPT()
    return X.agree(f, {}, ks[:5], " in a new instance afterwards")


cases = X.histories
