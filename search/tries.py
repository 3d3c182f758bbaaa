"""Shared by the searches on Merkle Patricia tries: histories, models, observers."""
from Crypto.Hash import keccak
from pymt.mpt import MPT


def kk(b):
    return keccak.new(data=b, digest_bits=256).digest()


def trie(secure):
    return MPT({}, secure=secure)


def apply(t, op, model):
    """Runs one operation on the trie and the model; a message when it misbehaves."""
    k = bytes.fromhex(op[1])
    if op[0] == "put":
        v = bytes.fromhex(op[2])
        if not v:
            return None
        t.update(k, v)
        model[k] = v
        return None
    try:
        t.delete(k)
    except Exception as e:
        if k in model:
            return "deleting a present key raises: key %s: %s" % (k.hex(), e)
        return None
    if k not in model:
        return "deleting an absent key does not raise: key %s" % k.hex()
    del model[k]
    return None


def look(t, k):
    try:
        return bytes(t.get(k))
    except Exception:
        return None


def agree(t, model, keys, what=""):
    for k in keys:
        want = model.get(k)
        got = look(t, k)
        if got != want:
            return "look-up%s: key %s gives %r instead of %r" % (what, k.hex(), got, want)
        if t.contains(k) != (want is not None) or (k in t) != (want is not None):
            return "membership%s: key %s" % (what, k.hex())
        try:
            got = bytes(t[k])
        except Exception:
            got = None
        if got != want:
            return "item%s: key %s gives %r instead of %r" % (what, k.hex(), got, want)
    return None


def around(keys):
    """The keys and close neighbours: prefixes, extensions, other nibbles."""
    out = list(dict.fromkeys(keys))
    seen = set(out)
    for k in list(out)[:20] + list(out)[20:][-4:]:
        for n in (k[:-1], k[:len(k) // 2], k + b"\x00", k + b"\x10", k[1:],
                  k[:-1] + bytes([k[-1] ^ 1]) if k else b"\x01",
                  k[:-1] + bytes([k[-1] ^ 16]) if k else b"\x10",
                  k[:-1] + b"\x00" if k else b"\x00"):
            if n not in seen:
                seen.add(n)
                out.append(n)
    return out


def keys_of(case):
    return [bytes.fromhex(o[1]) for o in case["ops"]]


def rkey(rng, pool):
    x = rng.random()
    if pool and x < 0.35:
        return rng.choice(pool)
    if pool and x < 0.7:
        k = rng.choice(pool)
        y = rng.random()
        if y < 0.3:
            return k[:rng.randrange(len(k) + 1)]
        if y < 0.6:
            return k + bytes(rng.choice([0, 1, 16, 255]) for _ in range(rng.randrange(1, 3)))
        if not k:
            return b"\x00"
        i = rng.randrange(len(k))
        return k[:i] + bytes([k[i] ^ rng.choice([1, 2, 8, 16, 32, 128, 17])]) + k[i + 1:]
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 8, 20, 32, 33, 40])
    z = rng.choice([[0, 1], [0, 16], [0, 1, 16, 17], list(range(256))])
    return bytes(rng.choice(z) for _ in range(n))


def rval(rng):
    n = rng.choice([1, 1, 1, 2, 3, 5, 20, 28, 29, 30, 31, 32, 33, 40, 60, 100])
    if rng.random() < 0.25:
        return b"same"
    return bytes(rng.choice([0, 1, 127, 128, 192, 255, rng.randrange(256)]) for _ in range(n))


def rops(rng, n, dels=0.35):
    pool, ops = [], []
    for _ in range(n):
        k = rkey(rng, pool)
        if rng.random() < dels:
            if pool and rng.random() < 0.8:
                k = rng.choice(pool)
            ops.append(["del", k.hex()])
        else:
            ops.append(["put", k.hex(), rval(rng).hex()])
            pool.append(k)
    return ops


def small():
    """Exhaustive small histories over keys chosen to collide in every way."""
    keys = ["", "00", "01", "10", "0000", "0010", "0100"]
    vals = ["31", "32" * 33]
    import itertools
    puts = [["put", k, v] for k in keys for v in vals]
    dels = [["del", k] for k in keys]
    for n in (1, 2):
        for c in itertools.product(puts + dels, repeat=n):
            yield [list(o) for o in c]
    for sub in itertools.combinations(keys, 4):
        yield [["put", k, "31"] for k in sub] + [["del", k] for k in sub]
        yield [["put", k, "32" * 33] for k in reversed(sub)] + [["del", k] for k in sub]


def deep(rng):
    """Keys that are prefixes of one another: long paths."""
    n = rng.choice([12, 20, 33, 40, 70])
    k = bytes(rng.choice([0, 1, 16, 255]) for _ in range(n))
    keys = [k[:i] for i in range(n + 1) if rng.random() < 0.95] + [k]
    if rng.random() < 0.5:
        rng.shuffle(keys)
    v = rval(rng).hex()
    ops = [["put", x.hex(), v if rng.random() < 0.7 else rval(rng).hex()] for x in keys]
    return ops + [["del", x.hex()] for x in rng.sample(keys, rng.choice([0, 0, 1, 5]))]


def histories(rng):
    """Small ones first, then random, with occasional long ones."""
    s = list(small())
    rng.shuffle(s)
    for i, ops in enumerate(s):
        yield {"secure": i % 5 == 4, "ops": ops}
        if i % 20 == 7:
            yield {"secure": False, "ops": deep(rng)}
        if i % 2:
            yield {"secure": rng.random() < 0.25, "ops": rops(rng, rng.choice([2, 3, 4, 6, 9, 14]))}
    while True:
        if rng.random() < 0.03:
            yield {"secure": rng.random() < 0.1, "ops": deep(rng)}
        yield {"secure": rng.random() < 0.25, "ops": rops(rng, rng.choice([2, 3, 4, 6, 9, 14, 30, 80]))}


def snapshot(t):
    return (dict(t._storage), t.root(), t.root_hash(), t._secure)


# ------------------------------------------------------------------ proofs
def built(c):
    """The trie of a case, its model by path bytes, or a message."""
    t, m = trie(c["secure"]), {}
    for op in c["ops"]:
        e = apply(t, op, m)
        if e:
            return None, None, "history fails: " + e
    return t, m, None


def holders(t, m):
    """Tries with the same root: none of the nodes, the same storage, another history."""
    yield "the trie itself", t
    yield "a trie without stored nodes", MPT({}, t.root(), t.secure)
    yield "a trie over the same storage", MPT(dict(t._storage), t.root(), t.secure)
    if m:
        o = trie(t.secure)
        for k in sorted(m, reverse=True):
            o.update(k, m[k])
        if o.root() == t.root():
            yield "a trie with another history", o
    if t.root_hash() == t.root():
        yield "a trie opened by root hash", MPT({}, t.root_hash(), t.secure)


def proof_cases(rng):
    for c in histories(rng):
        yield {**c, "seed": rng.randrange(1 << 30)}


def call(f, *a):
    try:
        return f(*a)
    except RecursionError:
        raise
    except Exception:
        return None


def accepted(f, p):
    r = call(f, p)
    return r is not None and r is not False and bool(r)


def nodes_from(t):
    """Encoded nodes reachable in a trie and everything in its storage."""
    out = list(t._storage.values())
    r = t.root()
    if r is not None and len(r) != 32:
        out.append(r)
    return [bytes(x) for x in out if isinstance(x, (bytes, bytearray))]


def pick(rng, xs):
    return xs[rng.randrange(len(xs))]


def forged(rng, entries, pool):
    """An altered list of entries."""
    es = list(entries)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        x = rng.randrange(10)
        if x == 0 and es:
            del es[rng.randrange(len(es))]
        elif x == 1 and pool:
            es.insert(rng.randrange(len(es) + 1), pick(rng, pool))
        elif x == 2 and es and pool:
            es[rng.randrange(len(es))] = pick(rng, pool)
        elif x == 3:
            rng.shuffle(es)
        elif x == 4 and es:
            es = es[:rng.randrange(len(es)) + 1]
        elif x == 5 and es:
            i = rng.randrange(len(es))
            b = es[i]
            if b:
                j = rng.randrange(len(b))
                es[i] = b[:j] + bytes([b[j] ^ (1 << rng.randrange(8))]) + b[j + 1:]
        elif x == 6 and es:
            es.append(pick(rng, es))
        elif x == 7:
            es = es + [b for b in pool[:40] if b not in es]
        elif x == 8 and es:
            del es[1:-1]
        elif x == 9 and es:
            es[-1] = pick(rng, [b"", b"\xc0", b"\x80", b"\xc2\x20\x01", b"junk"])
    return es
