"""C11: nibble paths against lists of half-bytes."""
from pymt.utils.nibble_path import NibblePath


def seq(data, off):
    out = []
    for b in data:
        out += [b >> 4, b & 15]
    return out[off:]


def path(d, off):
    return NibblePath(bytes.fromhex(d), off)


def lst(p):
    return [p.at(i) for i in range(len(p))]


def check(c):
    a, b = bytes.fromhex(c["a"]), bytes.fromhex(c["b"])
    oa, ob = min(c["oa"], 2 * len(a)), min(c["ob"], 2 * len(b))
    sa, sb = seq(a, oa), seq(b, ob)
    A, B = (lambda: NibblePath(a, oa)), (lambda: NibblePath(b, ob))
    if len(A()) != len(sa):
        return "len: %d instead of %d" % (len(A()), len(sa))
    if lst(A()) != sa:
        return "at: %r instead of %r" % (lst(A()), sa)
    try:
        A().at(len(sa))
        return "at beyond the end returned"
    except IndexError:
        pass
    if oa == 0 and lst(NibblePath(a)) != sa:
        return "default offset: wrong nibbles"
    if (A() == B()) is not (sa == sb):
        return "eq: %r for %r, %r" % (A() == B(), sa, sb)
    if (A() != B()) is not (sa != sb):
        return "ne: wrong for %r, %r" % (sa, sb)
    if A().starts_with(B()) is not (sa[:len(sb)] == sb):
        return "starts_with: wrong for %r, %r" % (sa, sb)
    n = 0
    while n < len(sa) and n < len(sb) and sa[n] == sb[n]:
        n += 1
    p = A().common_prefix(B())
    if lst(p) != sa[:n]:
        return "common_prefix: %r for %r, %r" % (lst(p), sa, sb)
    if not (p == NibblePath._create_new(A(), n)):
        return "create_new: differs from the common prefix"
    p = A().combine(B())
    if lst(p) != sa + sb:
        return "combine: %r for %r, %r" % (lst(p), sa, sb)
    k = min(c["k"], len(sa))
    x = A()
    y = x.consume(k)
    if y is not x or lst(x) != sa[k:]:
        return "consume: %r for %r, %d" % (lst(x), sa, k)
    q = NibblePath._create_new(A(), k)
    if lst(q) != sa[:k]:
        return "create_new: %r for %r, %d" % (lst(q), sa, k)
    for leaf in (False, True):
        for mk, s in ((A(), sa), (A().combine(B()), sa + sb), (A().common_prefix(B()), sa[:n]), (x, sa[k:])):
            e = mk.encode(leaf)
            want = hp(s, leaf)
            if e != want:
                return "encode: %s instead of %s" % (e.hex(), want.hex())
            d, f = NibblePath.decode_with_type(e)
            if lst(d) != s or f is not leaf:
                return "decode_with_type: %r, %r for %r, %r" % (lst(d), f, s, leaf)
            if lst(NibblePath.decode(e)) != s:
                return "decode: wrong path for %r" % s
    if A().encode() != hp(sa, False):
        return "encode: default flag"
    # computed paths (their data may be held differently) behave like the others
    E = NibblePath(b"")
    for x1, t1 in ((A(), sa), (A().combine(E), sa), (E.combine(A()), sa), (A().combine(B()), sa + sb)):
        for x2, t2 in ((B(), sb), (B().combine(E), sb), (A().common_prefix(B()), sa[:n])):
            if (x1 == x2) is not (t1 == t2) or (x2 == x1) is not (t1 == t2):
                return "eq of computed paths: wrong for %r, %r" % (t1, t2)
            if x1.starts_with(x2) is not (t1[:len(t2)] == t2) or x2.starts_with(x1) is not (t2[:len(t1)] == t1):
                return "starts_with of computed paths: wrong for %r, %r" % (t1, t2)
            i = 0
            while i < len(t1) and i < len(t2) and t1[i] == t2[i]:
                i += 1
            if lst(x1.common_prefix(x2)) != t1[:i]:
                return "common_prefix of computed paths: wrong for %r, %r" % (t1, t2)
    # the same object again after it was used
    x = A()
    for j in range(0, len(sa) + 1):
        if x.encode(True) != hp(sa[j:], True) or x.encode(False) != hp(sa[j:], False) or lst(x) != sa[j:]:
            return "encode after consume: wrong for %r" % (sa[j:],)
        if not x == NibblePath._create_new(x, len(x)) or not x.starts_with(x.common_prefix(B())):
            return "use after consume: wrong for %r" % (sa[j:],)
        if j < len(sa):
            x.consume(1)
    # derived paths are independent and the operations changed nothing else
    u, v = A(), B()
    w = u.combine(v)
    w.consume(len(w) // 2)
    u.common_prefix(v)
    u == v
    u.starts_with(v)
    u.encode(True)
    if lst(u) != sa or lst(v) != sb:
        return "operands changed"
    return None


def hp(s, leaf):
    out = [(32 if leaf else 0) + (16 + s[0] if len(s) % 2 else 0)]
    r = s[len(s) % 2:]
    return bytes(out + [16 * r[i] + r[i + 1] for i in range(0, len(r), 2)])


def cases(rng):
    small = ["", "00", "12", "1234", "1235", "0012", "abcdef", "ffff", "f0f0f0"]
    for a in small:
        for b in small:
            for oa in range(0, 4):
                for ob in range(0, 3):
                    yield {"a": a, "b": b, "oa": oa, "ob": ob, "k": (oa + ob) % 4}
    while True:
        n, m = rng.randrange(0, 9), rng.randrange(0, 9)
        if rng.random() < 0.02:
            n = rng.randrange(0, 140)
        a = bytes(rng.choice([0, 1, 16, 17, 255, rng.randrange(256)]) for _ in range(n))
        b = bytes(rng.choice([0, 1, 16, 17, 255, rng.randrange(256)]) for _ in range(m))
        if rng.random() < 0.6:
            b = a[:rng.randrange(0, n + 1)] + b[:rng.randrange(0, 3)]
        yield {"a": a.hex(), "b": b.hex(), "oa": rng.randrange(0, 5), "ob": rng.randrange(0, 5),
               "k": rng.randrange(0, 8)}
