"""C19: proofs survive serialisation, compare by content, and have a known type."""
import random

from search import merkles as M

P = M.Proof
TYPES = [b"MT-POI", b"MPT-POI", b"MPT-POE"]
FIELDS = ("_type", "_timestamp", "_target_key", "_root_hash", "_proof")


def fields(p):
    return tuple(getattr(p, f) for f in FIELDS)


def entries(l):
    return tuple(tuple(bytes.fromhex(y) for y in x) if isinstance(x, list) else bytes.fromhex(x) for x in l)


def mk(key, root, es, ty, ts=None):
    p = P(target_key=key, root_hash=root, proof=es, proof_type=ty)
    if ts is not None:
        p._timestamp = ts
    return p


def text(b):
    try:
        b.decode()
        return True
    except UnicodeDecodeError:
        return False


def is_text(p):
    return all(text(b) for b in fields(p)[:4]) and all(text(y) for x in p._proof for y in (x if isinstance(x, tuple) else (x,)))


def same(a, b, what):
    if type(b) is not P:
        return "%s gives %r" % (what, b)
    if fields(a) != fields(b) or [type(x) for x in fields(a)] != [type(x) for x in fields(b)] \
            or [type(x) for x in a._proof] != [type(x) for x in b._proof]:
        return "%s gives other content: %r, %r" % (what, fields(a), fields(b))
    if (b.type, b.timestamp, b.target_key, b.trie_root, b.proof) != fields(a):
        return "%s: properties of the result" % what
    if not (a == b) or not (b == a) or a != b or hash(a) != hash(b):
        return "%s: not equal" % what
    return None


def round_trips(p, must):
    before = fields(p)
    for kind in ("rlp", "json"):
        try:
            e = getattr(p, "encode_" + kind)()
        except Exception as x:
            if must and (kind == "rlp" or is_text(p)):
                return "encoding a Merkle proof to %s fails: %r (%r)" % (kind, x, before)
            continue
        finally:
            if fields(p) != before:
                return "encoding to %s changed the proof" % kind
        try:
            d = getattr(P, "decode_" + kind)(e)
        except Exception as x:
            return "what encode_%s gave is not decoded: %r (%r)" % (kind, x, before)
        m = same(p, d, kind)
        if m:
            return m
        if getattr(d, "encode_" + kind)() != e:
            return "%s: encoded again differs" % kind
    return None


def changed(p):
    """Proofs which differ from p in one field."""
    ty, ts, key, root, es = fields(p)
    for t in TYPES:
        if t != ty:
            yield "type", mk(key, root, es, t, ts)
    yield "timestamp", mk(key, root, es, ty, ts + b"0")
    yield "timestamp", mk(key, root, es, ty, ts[:-1] + bytes([ts[-1] ^ 1]) if ts else b"\0")

    def others(b):
        yield b + b"\0"
        yield b" " + b
        for c in (b.upper(), b.lower(), b.strip(), b[:-1], b[1:], b.rstrip(b"\0"), b[::-1], b"", repr(b).encode(), b.replace(b"'", b'"'), b.replace(b"\\", b"/")):
            if c != b:
                yield c
    for b in others(key):
        yield "key", mk(b, root, es, ty, ts)
    for b in others(root):
        yield "root", mk(key, b, es, ty, ts)
    if key != root:
        yield "key and root swapped", mk(root, key, es, ty, ts)
    yield "entry more", mk(key, root, es + (b"",), ty, ts)
    yield "empty tuple more", mk(key, root, es + ((),), ty, ts)
    if es:
        yield "entry less", mk(key, root, es[:-1], ty, ts)
        yield "first entry less", mk(key, root, es[1:], ty, ts)
        if es[::-1] != es:
            yield "reversed", mk(key, root, es[::-1], ty, ts)
    for i, x in enumerate(es):
        new = [x + (b"",), x[:-1], x[1:], x[::-1], b"".join(x)] if isinstance(x, tuple) else [(x,), *others(x)]
        if isinstance(x, tuple):
            new += [x[:j] + (c,) + x[j + 1:] for j, y in enumerate(x) for c in others(y)]
        for n in new:
            if n != x or type(n) is not type(x):
                yield "entry %d" % i, mk(key, root, es[:i] + (n,) + es[i + 1:], ty, ts)


def rejected(make, what):
    try:
        r = make()
    except Exception:
        return None
    return "%s accepted (%r)" % (what, r)


def check(c):
    key, root, ts = (bytes.fromhex(c[x]) for x in ("key", "root", "ts"))
    es = entries(c["es"])
    if c["ty"] not in range(3):
        return None
    ty = TYPES[c["ty"]]
    p = mk(key, root, es, ty)
    if fields(p)[0] != ty or fields(p)[2:] != (key, root, es) or type(p.timestamp) is not bytes or not p.timestamp:
        return "construction gives %r" % (fields(p),)
    for q in (p, mk(key, root, es, ty, ts)):
        m = round_trips(q, ty == b"MT-POI")
        if m:
            return m
        m = same(q, mk(key, root, es, ty, q._timestamp), "a copy")
        if m:
            return m
        if q == fields(q) or q == None or q == key or q == repr(q) or q == hash(q) or q == q.__dict__():  # noqa: E711
            return "equal to what is no proof"
        for what, o in changed(q):
            if q == o or o == q or not (q != o):
                return "equal although %s differs: %r, %r" % (what, fields(q), fields(o))
    for t in (b"", b"MT", b"POI", b"MPT", b"MT-POE", b"mt-poi", b"MT-POI ", b" MT-POI", b"MT-POI\0", b"MPT-POX", b"XMT-POI", b"MT-PO", b"MPT-PO", b"T-POI",
              b"MT-POI,MPT-POI", b"MT_POI", b"MPT-POIMPT-POE", ty[::-1], ty.lower(), ty + b"I", ty + ty, key):
        if t not in TYPES:
            m = rejected(lambda: mk(key, root, es, t), "unknown type %r" % t)
            if m:
                return m
    for t in ("MT-POI", None, 0, 1, b"MT-POI"[0], (b"MT-POI",), [b"MT-POI"], [], (), bytearray(b"MT-POI")):
        m = rejected(lambda: mk(key, root, es, t), "type %r" % (t,))
        if m:
            return m
    # the proofs of a tree
    vs = [bytes.fromhex(x) for x in c["l"]]
    if vs and c["alg"] in M.ALGS:
        t = M.new({**c, "tree": True})
        t.put_list(vs)
        t.make_tree()
        rng = random.Random(c["s"])
        for v in rng.sample(vs, min(4, len(vs))):
            p = t.get_proof_of_inclusion(v)
            if p.type != b"MT-POI" or p.target_key != v:
                return "the proof of %r: %r" % (v, fields(p))
            m = round_trips(p, True)
            if m:
                return m
            for kind in ("rlp", "json"):
                if kind == "json" and not text(v):
                    continue
                q = getattr(P, "decode_" + kind)(getattr(p, "encode_" + kind)())
                if t.verify_proof_of_inclusion(q) is not True:
                    return "a proof read from %s is not accepted" % kind
    return None


SOME = [b"", b"\0", b"a", b"key", b"\x7f", b"\x80", b"\xff", "é".encode(), "\U0001f600".encode(), b"\xed\xa0\x80", b"'", b'"', b"\\", b"', '", b"\\x00", b"\n", b" a ",
        b"left", b"right", b"\xef\xbb\xbfx", b"null", b"[]", b"[", b"x" * 55, b"x" * 56, b"x" * 300, b"\xc0", bytes(range(128)), bytes(range(256)), b"MT", b"MPT", b"MPT-POI",
        b"ab" * 32, b"\xe2\x80\xa8", b"\xc2\x80"]


def one(rng):
    if rng.random() < .7:
        return rng.choice(SOME).hex()
    return bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 3, 31, 32, 33, 60]))).hex()


def cases(rng):
    tree = M.sizes(rng)
    n = 0
    while True:
        kind = rng.randrange(4)
        es = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 7])):
            if kind == 0 or kind == 3 and rng.random() < .5:
                es.append(one(rng))
            elif kind == 1:
                es.append([rng.choice([b"left", b"right"]).hex(), (b"%064x" % rng.randrange(1 << 256)).hex()])
            else:
                es.append([one(rng) for _ in range(rng.choice([0, 1, 2, 2, 3]))])
        c = {"key": SOME[n].hex() if n < len(SOME) else one(rng), "root": one(rng), "es": es, "ty": rng.choice([0, 0, 0, 1, 2]),
             "ts": rng.choice([b"2024-01-01 10:00:00.000001", b"2024-01-01 10:00:00", b"", b"\xff", b"x"]).hex(), "s": rng.randrange(1000),
             **M.config(rng), "l": M.values(rng, min(next(tree), 40))}
        n += 1
        yield c
