"""C20: signatures against pycryptodome."""
import random

from Crypto.Hash import SHA256
from Crypto.Signature import pkcs1_15

from search.keys import KEYS, PEMS, outcome, pair


def valid(key, data, sig):
    try:
        pkcs1_15.new(key).verify(SHA256.new(data), sig)
        return True
    except (ValueError, TypeError):
        return False


def check(c):
    d, e = bytes.fromhex(c["d"]), bytes.fromhex(c["e"])
    a, b = pair(c["ka"], c["a"], "a"), pair(c["kb"], c["b"], "b")
    s = a.sign(d)
    if s != pkcs1_15.new(KEYS[c["a"]]).sign(SHA256.new(d)):
        return "signature: not that of the data"
    for who in (a, b):
        if who.signature_valid(d, s, a.public_key) is not True:
            return "signature: rejected"
    if a.signature_valid(d, s) is not True or a.signature_valid(d, s, None) is not True:
        return "signature: rejected by the signer"
    sigs = [s, b.sign(d), a.sign(e), b"", s[:-1], s + b"\0", b"\0" + s, bytes([s[0] ^ 1]) + s[1:], s[:-1] + bytes([s[-1] ^ c["bit"]]), d]
    few = random.Random(c["bit"] * 7 + len(d))
    for who, own in ((a, c["a"]), (b, c["b"])):
        for x in (d, e, d + b"\0", d[:-1]):
            for t in (sigs if len(sigs) < 3 else few.sample(sigs, 3)):
                if who.signature_valid(x, t) is not valid(KEYS[own].publickey(), x, t):
                    return "verdict under the own key: wrong for data %r signature %r" % (x, t)
                for k in {c["a"], c["b"]}:
                    want = valid(KEYS[k].publickey(), x, t)
                    for form in few.sample([KEYS[k].publickey().export_key(), PEMS[k].encode(), KEYS[k].publickey().export_key("DER")], 1):
                        if who.signature_valid(x, t, form) is not want:
                            return "verdict: wrong for data %r signature %r" % (x, t)
    for bad in ("x", None, 5, bytearray(b"x"), [1]):
        if outcome(a.sign, bad)[0] != "raised" or outcome(a.signature_valid, bad, s)[0] != "raised" or outcome(a.signature_valid, d, bad)[0] != "raised":
            return "not bytes: accepted %r" % (bad,)
        if bad is not None and outcome(a.signature_valid, d, s, bad)[0] != "raised":
            return "not bytes: public key %r" % (bad,)
    for k in (b"", b"junk", PEMS[c["a"]].encode()[:100]):
        if outcome(a.signature_valid, d, s, k)[0] != "raised":
            return "public key: %r accepted" % k
    return None


def cases(rng):
    n = 0
    while True:
        d = rng.choice([b"", b"\0", b"data", b"a" * 64, bytes(rng.randrange(256) for _ in range(rng.randrange(0, 300)))])
        if n % 5 == 4:
            d = bytes([65 + n % 20]) * rng.choice([255, 256, 1000, 4097, 9000, 70000])
        e = rng.choice([d[:-1] + b"!", b"", d + b"x", d[:len(d) // 2], d.lower(), bytes(rng.randrange(256) for _ in range(20))])
        a = n % 4
        yield {"d": d.hex(), "e": e.hex(), "a": a, "b": rng.choice([x for x in range(4) if x != a]), "ka": ("general", "auth")[n // 4 % 2],
               "kb": ("general", "auth")[n // 8 % 2], "bit": 1 << rng.randrange(8)}
        n += 1
