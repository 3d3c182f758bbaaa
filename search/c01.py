"""C01: the trie is an exact map."""
from search import tries as T


def check(c):
    t, m = T.trie(c["secure"]), {}
    ks = T.around(T.keys_of(c))
    few = ks[:6]
    for i, op in enumerate(c["ops"]):
        e = T.apply(t, op, m)
        if e:
            return e
        k = bytes.fromhex(op[1])
        e = T.agree(t, m, few + [k, k[:-1], k + b"\x00"])
        if e:
            return e
    e = T.agree(t, m, ks)
    if e:
        return e
    # the dunder forms do the same
    t, m = T.trie(c["secure"]), {}
    for op in c["ops"][:10]:
        k = bytes.fromhex(op[1])
        if op[0] == "put":
            if op[2]:
                t[k] = bytes.fromhex(op[2])
                m[k] = bytes.fromhex(op[2])
        else:
            try:
                del t[k]
                if k not in m:
                    return "deleting an absent key does not raise: key %s" % k.hex()
                del m[k]
            except Exception:
                if k in m:
                    return "deleting a present key raises: key %s" % k.hex()
    return T.agree(t, m, ks[:12])


cases = T.histories
