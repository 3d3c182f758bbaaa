"""C13: replaced data is never returned."""
from search import extended as X, tries as T


def check(c):
    t, m = X.make(c), {}
    bad = {}
    n = 0
    for i, op in enumerate(c["ops"]):
        k = bytes.fromhex(op[1])
        if op[0] == "put" and (c["pick"] + i) % 5 == 0:     # a long value
            op = [op[0], op[1], (op[2] or "31") * (200 + c["pick"] % 300), op[3]]
        e = X.apply(t, op, m)
        if e and "absent" not in e:
            return e
        bad.pop(k, None)
        if k in m and isinstance(m[k], bytearray):          # the caller's array may be changed in place
            m[k] = bytearray(m[k])
        if m and (c["pick"] + n) % 3 == 0:      # replace some value behind the trie's back
            ks = sorted(m)
            k = ks[(c["pick"] + n) % len(ks)]
            b = X.vbytes(m[k])
            alts = [b + b"\0", b"\0" + b, b[:-1], b[1:], b[::-1], b"", b"null", b"\x80", k, b.lower(), b.upper(), b.strip(), bytes([0xc0]) + b,
                    bytes([b[0] ^ 1]) + b[1:] if b else b"\1", b[:-1] + bytes([b[-1] ^ 128]) if b else b"\2"]
            alts += [X.vbytes(m[q]) for q in ks[:4]] + [b[:-1] + b"~", b + b]
            a = alts[(c["pick"] // 7 + 5 * n) % len(alts)]
            live = t._data_storage[k]
            if isinstance(live, bytearray) and (c["pick"] + n) % 2:
                live[:] = a if n % 3 else b[:-1] + b"~"
            else:
                t._data_storage[k] = (bytes, bytearray, X.Obj)[(c["pick"] // 3 + n // 3 + n) % 3](a)
            bad[k] = t._data_storage[k]
        n += 1
        for k in list(m)[:40]:
            for item in (False, True):
                g = X.fetch(t, k, item)
                if k in bad and X.vbytes(bad[k]) != X.vbytes(m[k]):
                    if g is not None:
                        return "replaced data is returned: key %s, stored %r, replaced by %r" % (k.hex(), X.vbytes(m[k]), X.vbytes(bad[k]))
                elif g is None:
                    return "value not returned: key %s" % k.hex()
                elif X.vbytes(g[0]) != X.vbytes(m[k]):
                    return "another value is returned: key %s" % k.hex()
                r = X.reference(t, k)
                if g is not None and (r is None or r[1] != X.vbytes(g[0])):
                    return "value does not match the reference: key %s" % k.hex()
    return None


cases = X.histories
