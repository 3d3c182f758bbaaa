"""C25: hashing helpers against the libraries they name."""
import hashlib
from Crypto.Hash import keccak
from pymt.utils.hash import keccak_hash, keccak_hash_list
from pymt.utils.utils import Utils


def kk(b):
    return keccak.new(data=bytes(b), digest_bits=256).digest()


def hexa(b):
    return "".join("%02x" % x for x in b).encode()


def rejects(f, what):
    try:
        r = f()
    except Exception:
        return None
    return "%s accepted: %r" % (what, r)


def check(c):
    b = bytes.fromhex(c["b"])
    l = [bytes.fromhex(x) for x in c["l"]]
    for d in (b, bytearray(b)):
        if keccak_hash(d) != kk(b) or keccak_hash(d, False) != kk(b):
            return "keccak_hash(%r)" % d
        if keccak_hash(d, hexdigest=True) != hexa(kk(b)):
            return "keccak_hash hex (%r)" % d
    if type(keccak_hash(b)) is not bytes or type(keccak_hash(b, True)) is not bytes:
        return "keccak_hash type"
    if keccak_hash_list(l) != kk(b"".join(l)):
        return "keccak_hash_list(%r)" % l
    if keccak_hash_list(l, hexdigest=True) != hexa(kk(b"".join(l))):
        return "keccak_hash_list hex (%r)" % l
    s2, s5 = hashlib.sha256(b).digest(), hashlib.sha512(b).digest()
    for name, f, want in (("sha256", Utils.sha256, s2), ("sha512", Utils.sha512, s5)):
        if f(b) != hexa(want) or f(b, True) != hexa(want) or f(b, finalize=True) != hexa(want):
            return "%s hex (%r): %r" % (name, b, f(b))
        h = f(b, False)
        if h.digest() != want or h.hexdigest().encode() != hexa(want):
            return "%s object (%r)" % (name, b)
        if Utils.hash_data(b, True, name) != hexa(want) or Utils.hash_data(b, type=name) != hexa(want) \
                or Utils.hash_data(b, finalize=False, type=name).digest() != want:
            return "hash_data %s (%r)" % (name, b)
    if Utils.hash_data(b) != hexa(s2) or Utils.hash_data(b, False).digest() != s2:
        return "hash_data default (%r)" % b
    for n in ("md5", "SHA256", "sha-256", "", "sha224", "keccak", "sha", "sha2", "256", "sha2560", "sha512 ", "sha256\0"):
        m = rejects(lambda: Utils.hash_data(b, True, n), "algorithm " + n)
        if m:
            return m
    for bad in ("text", "", None, 5, 0, 1.5, [1, 2], [], (), {}, False, b.decode("latin1")):
        for f in (Utils.hash_data, Utils.sha256, Utils.sha512, keccak_hash):
            for fin in (True, False):
                m = rejects(lambda: f(bad, fin), "input %r by %s" % (bad, f.__name__))
                if m:
                    return m
    m = rejects(lambda: keccak_hash_list(["a"]), "list of text")
    return m


def cases(rng):
    for n in list(range(0, 140)):
        yield {"b": "5a" * n, "l": ["01" * (n % 7), "", "ff" * (n % 3)]}
    while True:
        few = [rng.choice(["", "00", "61", "6161", "ff" * 31, "ff" * 32]) for _ in range(3)]
        yield {"b": rng.choice(few), "l": [rng.choice(few) for _ in range(rng.randrange(0, 7))]}
        yield {"b": bytes(rng.randrange(256) for _ in range(rng.randrange(0, 300))).hex(),
               "l": [bytes(rng.randrange(256) for _ in range(rng.randrange(0, 80))).hex() for _ in range(rng.randrange(0, 6))]}
