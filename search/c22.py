"""C22: saved key pairs."""
import json
import os
import shutil
import tempfile

from Crypto.PublicKey import RSA

from search.keys import CLASSES, KEYS, outcome, pair


def secret(k, blob):
    """Is the private key readable without the passphrase?"""
    try:
        return RSA.import_key(blob).has_private()
    except Exception:
        return False


def holds(text, c, p):
    try:
        j = json.loads(text)
        if j["nickname"] != c["nick"]:
            return "saved: nickname %r" % j["nickname"]
        if j["public_key"] != KEYS[c["k"]].publickey().export_key().decode():
            return "saved: public key"
        blob = bytes.fromhex(j["private_key"])
        if secret(c["k"], blob):
            return "saved: the private key is not encrypted"
        if RSA.import_key(blob, passphrase=p) != KEYS[c["k"]]:
            return "saved: another private key"
        if c["q"] != p and outcome(RSA.import_key, blob, passphrase=c["q"])[0] == "value":
            return "saved: opens with another passphrase"
    except Exception as e:
        return "saved: %s: %s" % (type(e).__name__, e)
    k = KEYS[c["k"]]
    plain = text
    for v in (k.d, k.p, k.q):
        if str(v) in plain or "%x" % v in plain.lower():
            return "saved: the private key is in the text"
    for v in j.values():
        if v is not j["private_key"] and isinstance(v, str) and "PRIVATE" in v:
            return "saved: the private key is in the text"
    for name, v in j.items():
        if name not in ("nickname", "public_key", "private_key"):
            try:
                if secret(c["k"], bytes.fromhex(v)) or secret(c["k"], v.encode()):
                    return "saved: private key in " + name
            except Exception:
                pass
    return None


def same(kp, got, cls, c, what):
    if type(got) is not cls:
        return "%s: class %s" % (what, type(got).__name__)
    if got.nickname != c["nick"]:
        return "%s: nickname %r" % (what, got.nickname)
    if got.public_key != KEYS[c["k"]].publickey().export_key():
        return "%s: another key" % what
    if not got == kp or not kp == got or hash(got) != hash(kp):
        return "%s: not equal" % what
    if got.to_key_string("x") is None:
        return "%s: not saved again" % what
    again = json.loads(got.to_key_string("y"))
    if RSA.import_key(bytes.fromhex(again["private_key"]), passphrase="y") != KEYS[c["k"]]:
        return "%s: another private key" % what
    return None


def check(c):
    cls, p = CLASSES[c["kind"]], c["p"]
    kp = pair(c["kind"], c["k"], c["nick"])
    t = kp.to_key_string(p)
    m = holds(t, c, p) or same(kp, cls.from_key_string(t, p), cls, c, "loaded")
    if m:
        return m
    if c["q"] != p:
        kind, got = outcome(cls.from_key_string, t, c["q"])
        if kind == "value":
            return "loaded with another passphrase"
    d = tempfile.mkdtemp(prefix="pymt_search_")
    try:
        f = os.path.join(d, c["file"])
        if c["before"] is not None:
            with open(f, "w") as fh:
                fh.write(c["before"])
        kp.to_key_file(f, p)
        with open(f) as fh:
            m = holds(fh.read(), c, p) or same(kp, cls.from_key_file(f, p), cls, c, "loaded from a file")
        if m:
            return m
        if sorted(os.listdir(d)) != [c["file"]]:
            return "files: %r" % sorted(os.listdir(d))
        if c["q"] != p and outcome(cls.from_key_file, f, c["q"])[0] == "value":
            return "loaded from a file with another passphrase"
        if outcome(cls.from_key_file, f + "x", p) != ("raised", "FileNotFoundError"):
            return "a missing file"
        other = pair(c["kind"], (c["k"] + 1) % 4, c["nick"])
        named = pair(c["kind"], c["k"], c["nick"] + "x")
        for o in (other, named, 5, None, b"", "x", t):
            if kp == o or not kp != o:
                return "equality: equal to %r" % (o,)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for bad in (b"x", None, 5):
        for r in (outcome(kp.to_key_string, bad), outcome(kp.to_key_file, os.path.join(d, "f"), bad), outcome(cls.from_key_string, t, bad),
                  outcome(cls.from_key_string, bad, p)):
            if r[0] != "raised":
                return "not text: accepted %r" % (bad,)
    for odd in ("", "\u20ac", " ", "\0"):
        kind, got = outcome(kp.to_key_string, odd)
        try:
            if kind == "value" and secret(c["k"], bytes.fromhex(json.loads(got)["private_key"])):
                return "saved: the private key is not encrypted (passphrase %r)" % odd
        except (ValueError, KeyError, TypeError):
            return "saved: %r" % got
    for junk in ("", "{}", "[]", "5", '"x"', json.dumps({"nickname": "x"}), t[:-1]):
        if outcome(cls.from_key_string, junk, p)[0] != "raised":
            return "junk: loaded %r" % junk
    return None


WORDS = ["a", "secret", "p w", "\xe9\xfc", "x" * 80, "\0", " ", "None", "null", "0", "1", " a", "a "]


def cases(rng):
    n = 0
    while True:
        nick = rng.choice(["me", "", "\xe9", "\u20ac\U0001f600", "a\"b\\c\n", "null", "x" * 200, " me ", "Me"])
        p = rng.choice(WORDS)
        yield {"kind": ("general", "auth", "enc")[n % 3], "k": n // 3 % 3, "nick": nick, "p": p, "q": rng.choice([w for w in WORDS if w != p]),
               "file": rng.choice(["k", "key.json", "\xe9.txt", "a b"]), "before": rng.choice([None, "", "old", "x" * 9000])}
        n += 1
