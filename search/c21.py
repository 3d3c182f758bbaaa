"""C21: messages, altered messages, wrong senders, and the encryption-only class."""
import json
import random

from Crypto.Cipher import AES, PKCS1_OAEP
from Crypto.Hash import SHA256
from Crypto.Signature import pkcs1_15

from search.keys import KEYS, outcome, pair

FIELDS = ("enc_session_key", "nonce", "tag", "ciphertext", "signature")


def read(m, receiver, sender):
    """What the message means: the data, or None when it is not accepted."""
    try:
        j = json.loads(m.decode())
        f = {k: bytes.fromhex(j[k]) for k in FIELDS}
        pkcs1_15.new(sender).verify(SHA256.new(f["ciphertext"]), f["signature"])
        key = PKCS1_OAEP.new(receiver).decrypt(f["enc_session_key"])
        return AES.new(key, AES.MODE_EAX, f["nonce"]).decrypt_and_verify(f["ciphertext"], f["tag"])
    except Exception:
        return None


def check(c):
    d = bytes.fromhex(c["d"])
    a, b = pair(c["ka"], c["a"], "a"), pair(c["kb"], c["b"], "b")
    other = pair(c["kb"], c["c"], "c")
    ka, kb, kc = KEYS[c["a"]], KEYS[c["b"]], KEYS[c["c"]]
    pa, pb, pc = (k.publickey().export_key() for k in (ka, kb, kc))
    m = a.encrypt(d, pb)
    if b.decrypt(m, pa) != d:
        return "message: not read as the data"
    if type(m) is not bytes or read(m, kb, ka.publickey()) != d:
        return "message: another reader does not accept it"
    m2 = a.encrypt(d, pb)
    j, j2, j3 = json.loads(m), json.loads(m2), json.loads(other.encrypt(d, pb))
    msgs = [m, m2, json.dumps(j3).encode(), a.encrypt(d, pc), a.encrypt(d, pa), b"", b"{}", b"junk", m[:-1], m.swapcase()]
    for f in FIELDS:
        x = j[f]
        for y in (j2[f], j3[f], x[:-2], x + "00", "", x.upper(), "%02x" % (int((x or "00")[:2], 16) ^ c["bit"]) + x[2:], x[:2], x[:24], None, 5):
            msgs.append(json.dumps({**j, f: y}).encode())
        msgs.append(json.dumps({k: v for k, v in j.items() if k != f}).encode())
    # signed anew by the sender: only the tag can tell
    for ct in (d, bytes.fromhex(j["ciphertext"])[::-1], b"", bytes.fromhex(j["ciphertext"]) + b"x"):
        sig = pkcs1_15.new(ka).sign(SHA256.new(ct)).hex()
        msgs.append(json.dumps({**j, "ciphertext": ct.hex(), "signature": sig}).encode())
    for tag in ("", j["tag"][:2], "00" * 16):
        msgs.append(json.dumps({**j, "tag": tag}).encode())
    few = random.Random(c["bit"] * 7 + len(d))
    few.shuffle(msgs)
    for i, x in enumerate(msgs):
        for who, k in ((b, kb),) + (((a, ka),) if i < 5 else ()):
            for s, ps in ((ka, pa),) + (((kc, pc), (kb, pb)) if i < 5 else ()):
                want = read(x, k, s.publickey())
                kind, got = outcome(who.decrypt, x, ps)
                if want is None and kind == "value":
                    return "decrypt: accepted a message it should reject: %r" % x
                if want is not None and (kind, got) != ("value", want):
                    return "decrypt: %r instead of the data" % (got,)
    for bad in ("x", None, 5, bytearray(b"x")):
        for r in (outcome(a.encrypt, bad, pb), outcome(a.encrypt, d, bad), outcome(b.decrypt, bad, pa), outcome(b.decrypt, m, bad)):
            if r[0] != "raised":
                return "not bytes: accepted %r" % (bad,)
    return None


def cases(rng):
    n = 0
    while True:
        d = rng.choice([b"", b"\0", b"data", b"a" * 64, b"\xff" * 15, bytes(rng.randrange(256) for _ in range(rng.randrange(0, 300)))])
        if n % 5 == 4:
            d = bytes([65 + n % 20]) * rng.choice([255, 256, 1000, 4097, 9000, 70000])
        l = rng.sample(range(4), 3)
        yield {"d": d.hex(), "a": l[0], "b": l[1], "c": l[2], "ka": ("general", "enc")[n % 2], "kb": ("general", "enc")[n // 2 % 2], "bit": 1 << rng.randrange(8)}
        n += 1
