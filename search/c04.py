"""C04: content-addressed storage, old roots stay readable."""
from pymt.mpt import MPT
from search import tries as T


def check(c):
    s = {}
    t, m = MPT(s, secure=c["secure"]), {}
    hist = [(t.root(), {}), (t.root_hash(), {})]
    ks = T.around(T.keys_of(c))[:30]
    for op in c["ops"]:
        was = dict(s)
        e = T.apply(t, op, m)
        if e:
            return "history fails: " + e
        for k, v in was.items():
            if s.get(k) != v:
                return "a storage entry disappears or changes: %s" % k.hex()
        for k, v in s.items():
            if k not in was and k != T.kk(v):
                return "a storage entry is not filed under its hash: %s" % k.hex()
        hist.append((t.root(), dict(m)))
        hist.append((t.root_hash(), dict(m)) if t.root_hash() in s else (t.root(), dict(m)))
    for r, mm in (hist if len(hist) < 24 else hist[::len(hist) // 24]):
        o = MPT(s, r, c["secure"])
        e = T.agree(o, mm, ks[:14], " at an earlier root")
        if e:
            return e
        for k in mm:
            if T.look(o, k) != mm[k]:
                return "look-up at an earlier root: key %s" % k.hex()
    # a trie opened at an old root and changed does not disturb the others
    if len(hist) > 4:
        r, mm = hist[len(hist) // 2]
        o, mo = MPT(s, r, c["secure"]), dict(mm)
        for op in c["ops"][:6]:
            e = T.apply(o, op, mo)
            if e:
                return "reopened trie: " + e
        for tt, mm, w in ((o, mo, " in a reopened trie"), (t, m, " after a reopened trie was changed")):
            e = T.agree(tt, mm, ks[:14], w)
            if e:
                return e
    return None


cases = T.histories
