"""C15: data references survive encoding and reject corruption."""
import rlp
from Crypto.Hash import keccak
from pymt.empt import DataReference


def num(b):
    return int.from_bytes(keccak.new(data=b, digest_bits=256).digest(), "big")


def dec(b):
    try:
        return DataReference.decode(b)
    except Exception:
        return None


def check(c):
    k, d, d2 = (bytes.fromhex(c[x]) for x in ("k", "d", "d2"))
    h = num(k + d)
    r = DataReference(k, d)
    if r.key != k or r.data != d or r.hash != h or hash(r) != hash(h):
        return "fields of a new reference"
    e = r.encode()
    u = dec(e)
    if u is None:
        return "an encoded reference does not decode: key %r data %r" % (k, d)
    if u.key != k or u.data != d or u.hash != h or u != r or not (u == r):
        return "decoding gives another reference: key %r data %r" % (k, d)
    if u.encode() != e:
        return "encoding again differs"
    o = DataReference(k, d2)
    if (r == o) != (d == d2) or (r != o) != (d != d2) or (u == o) != (d == d2):
        return "equality: key %r data %r and %r" % (k, d, d2)
    for x in (e, None, 5, b"", h, k):
        if r == x:
            return "equal to %r" % (x,)
    m61 = 2 ** 61 - 1
    nums = [0, 1, h + 1, h - 1, h ^ 1, h ^ (1 << 255), h + m61, h - m61, h % m61, h % 2 ** 64, h >> 8, h << 8, h % 2 ** 248, h % 2 ** 128, h + 2 ** 256,
            h ^ (1 << c["bit"]), num(d), num(k), num(k + d2), num(d + k), num(b"FF" + k + d)]
    forged = [(b"FF", k, d, n) for n in nums if n >= 0 and n != h]
    forged += [(m, k, d, h) for m in (b"ff", b"Ff", b"fF", b"F", b"", b"FFF", b"FF\0", b"\xff", b"FF ", b"G", b"EF", b"\0FF") if m != b"FF"]
    forged += [(b"FF", k2, dd, h) for k2, dd in ((k + b"\0", d), (k, d + b"\0"), (b"\0" + k, d), (k, d2), (d, k), (k[:-1], d), (k, d[:-1]), (k, d[1:]), (k, b""), (b"", d), (d2, d))
               if num(k2 + dd) != h]
    for f in forged:
        if dec(rlp.encode(list(f))) is not None:
            return "corrupt reference decodes: %r (hash of key and data %x)" % (f, num(f[1] + f[2]))
    hb = h.to_bytes(32, "big")
    for f in ([b"FF", k, d], [b"FF", k, d, h, b""], [b"FF", k], [], [b"FF", k, d, [h]], [[b"FF"], k, d, h]):
        if dec(rlp.encode(f)) is not None:
            return "malformed reference decodes: %r" % (f,)
    for x in (e[:-1], e + b"\0", b"", b"\0", e[1:], hb, k, d):
        v = dec(x)
        if v is not None and (v.hash != num(v.key + v.data) or x != v.encode()):
            return "malformed bytes decode: %r" % (x,)
    for i in range(0, len(e), max(1, len(e) // 24)):
        x = e[:i] + bytes([e[i] ^ (1 << c["bit"] % 8)]) + e[i + 1:]
        v = dec(x)
        if v is not None and v.hash != num(v.key + v.data):
            return "altered bytes decode to a wrong hash: %r" % (x,)
    for bad in ("", "a", None, 5, [1], (b"a",), bytearray(b"a")):
        for f in (lambda: DataReference(bad, d), lambda: DataReference(k, bad), lambda: DataReference.decode(bad)):
            try:
                f()
            except TypeError:
                continue
            except Exception as ex:
                return "%r raises %r" % (bad, ex)
            return "%r accepted" % (bad,)
    return None


def rb(rng, ns=(0, 1, 2, 3, 20, 32, 55, 56, 57, 100, 300)):
    return bytes(rng.choice((rng.randrange(256), 0, 0x7f, 0x80)) for _ in range(rng.choice(ns)))


def cases(rng):
    few = [b"", b"\0", b"a", b"\x7f", b"\x80", b"FF", b"x" * 55, b"x" * 56, b"y" * 300]
    for a in few:
        for b in few:
            yield {"k": a.hex(), "d": b.hex(), "d2": rng.choice(few).hex(), "bit": rng.randrange(256)}
    n = 0
    while True:
        k, d = rb(rng), rb(rng)
        # hashes with leading zeros
        while num(k + d) >> 248 and rng.random() < 0.99:
            n += 1
            k = b"key %d" % n
        yield {"k": k.hex(), "d": d.hex(), "d2": rng.choice([d, rb(rng), d[:-1], d + b"\0", b""]).hex(), "bit": rng.randrange(256)}
