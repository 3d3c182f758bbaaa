"""C23: password encryption against AES-EAX."""
import hashlib

from Crypto.Cipher import AES
from pymt.utils.utils import Utils

from search.keys import outcome


def read(b, p):
    """The data of a blob under a password, or None."""
    try:
        k = hashlib.sha256(p.encode()).digest()
        return AES.new(k, AES.MODE_EAX, b[:16]).decrypt_and_verify(b[32:], b[16:32])
    except ValueError:
        return None


def check(c):
    d, p, q = bytes.fromhex(c["d"]), c["p"], c["q"]
    b = Utils.encrypt(d, p)
    if Utils.decrypt(b, p) != d:
        return "round trip: another string"
    if type(b) is not bytes or len(b) != 32 + len(d) or read(b, p) != d:
        return "blob: not one the password opens"
    if Utils.encrypt(d, p)[:16] == b[:16]:
        return "nonce: used again"
    o = Utils.encrypt(d, q)
    blobs = [b, o, b[:-1], b + b"\0", b"", b[:16], b[:31], b[:32], b[1:], b[:16] + o[16:32] + b[32:], o[:16] + b[16:], b[:16] + b"\0" * 16 + b[32:],
             b[:16] + b[17:], b[:16] + b[32:], bytes(reversed(b)), d]
    for i in {0, 7, 15, 16, 17, 24, 31, 32, len(b) // 2, len(b) - 1, c["i"] % len(b)}:
        if i < len(b):
            for m in (1, 128, c["bit"]):
                blobs.append(b[:i] + bytes([b[i] ^ m]) + b[i + 1:])
    for x in blobs:
        for w in (p, q):
            want = read(x, w)
            kind, got = outcome(Utils.decrypt, x, w)
            if want is None and kind == "value":
                return "decrypt: accepted an altered blob"
            if want is not None and (kind, got) != ("value", want):
                return "decrypt: %r instead of the data" % (got,)
    for bad in ("x", None, 5, bytearray(b)):
        if outcome(Utils.encrypt, bad, p)[0] != "raised" or outcome(Utils.decrypt, bad, p)[0] != "raised":
            return "not bytes: accepted %r" % (bad,)
    for bad in (b"x", None, 5):
        if outcome(Utils.encrypt, d, bad)[0] != "raised" or outcome(Utils.decrypt, b, bad)[0] != "raised":
            return "not text: accepted %r" % (bad,)
    return None


WORDS = ["", "a", "secret", "Secret", " a", "a ", "\xe9", "\u20ac\U0001f600", "x" * 32, "x" * 33, "x" * 200, "\0", "a\0"]


def cases(rng):
    for n in range(0, 60):
        yield {"d": "5a" * n, "p": WORDS[n % len(WORDS)], "q": WORDS[(n + 1 + n // len(WORDS)) % len(WORDS)] + "!", "i": n, "bit": 1 << n % 8}
    for n in (255, 256, 1000, 4096, 4097, 9000, 70000):
        yield {"d": "6b" * n, "p": "p", "q": "q", "i": n - 1, "bit": 1}
    while True:
        p = rng.choice(WORDS)
        yield {"d": bytes(rng.choice([0, 97, 255, rng.randrange(256)]) for _ in range(rng.randrange(0, 300))).hex(), "p": p,
               "q": rng.choice([w for w in WORDS if w != p] + [p + "x"]), "i": rng.randrange(1000), "bit": 1 << rng.randrange(8)}
