PRE = '''
import json, os, sys, tempfile, shutil
from Crypto.PublicKey import RSA
from Crypto.Hash import SHA256
from Crypto.Signature import pkcs1_15
import pymt.keypairs as kpm
from pymt.keypairs import RsaKeyPair, RsaAuthKeyPair, RsaEncKeyPair
from pymt.utils.utils import Utils

gen = RSA.generate
def pair(cls=RsaKeyPair, nick="me"):
    RSA.generate = lambda bits, *a, **k: gen(1024)
    try:
        return cls(nick)
    finally:
        RSA.generate = gen

def raises(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        return True
    return False
'''
BUGS = [
 dict(id="c20-verdict-remembered", property="C20",
  needs="the same data and signature checked twice by one object, under two public keys",
  breaks="the second verdict is the one of the first public key",
  edits=[("keypairs.py", '''        h = SHA256.new(data)
        try:
            pkcs1_15.new(rsa_key).verify(h, signature)
            return True
''', '''        h = SHA256.new(data)
        if self.__dict__.get("_verified") == (data, signature):
            return True
        try:
            pkcs1_15.new(rsa_key).verify(h, signature)
            self._verified = (data, signature)
            return True
''')],
  demo=PRE+'''
a, b, c = pair(), pair(), pair()
s = a.sign(b"data")
ok = c.signature_valid(b"data", s, a.public_key) is True
sys.exit(0 if ok and c.signature_valid(b"data", s, b.public_key) is False else 1)
'''),
 dict(id="c20-trailing-zeros", property="C20",
  needs="a signature followed by zero bytes, or one that ends with a zero byte (one in 256)",
  breaks="a padded signature is accepted and a genuine one that ends with zero is rejected",
  edits=[("keypairs.py", '''            pkcs1_15.new(rsa_key).verify(h, signature)
''', '''            pkcs1_15.new(rsa_key).verify(h, signature.rstrip(b"\\x00"))
''')],
  demo=PRE+'''
a = pair()
s = a.sign(b"data")
sys.exit(0 if a.signature_valid(b"data", s) is True and a.signature_valid(b"data", s + b"\\0") is False else 1)
'''),
 dict(id="c20-signed-prefix", property="C20",
  needs="data longer than 4096 bytes",
  breaks="only a prefix is signed and checked, so a signature is accepted for other data",
  edits=[("keypairs.py", '''        h = SHA256.new(data)
        signature = pkcs1_15''', '''        h = SHA256.new(data[:4096])
        signature = pkcs1_15'''), ("keypairs.py", '''        h = SHA256.new(data)
        try:
''', '''        h = SHA256.new(data[:4096])
        try:
''')],
  demo=PRE+'''
a = pair()
s = a.sign(b"x" * 5000 + b"1")
sys.exit(0 if a.signature_valid(b"x" * 5000 + b"1", s) is True and a.signature_valid(b"x" * 5000 + b"2", s) is False else 1)
'''),
 dict(id="c20-own-key-too", property="C20",
  needs="a signature of the checker checked against another public key",
  breaks="the verdict is True for a public key that does not belong to the signer",
  edits=[("keypairs.py", '''        rsa_key = RSA.import_key(public_key)
        h = SHA256.new(data)
        try:
            pkcs1_15.new(rsa_key).verify(h, signature)
            return True
        except (ValueError, TypeError):
            return False
''', '''        h = SHA256.new(data)
        for key in (public_key, self.public_key):
            rsa_key = RSA.import_key(key)
            try:
                pkcs1_15.new(rsa_key).verify(h, signature)
                return True
            except (ValueError, TypeError):
                continue
        return False
''')],
  demo=PRE+'''
a, b = pair(), pair()
s = a.sign(b"data")
sys.exit(0 if a.signature_valid(b"data", s, b.public_key) is False and b.signature_valid(b"data", s, a.public_key) is True else 1)
'''),
 dict(id="c21-short-tag", property="C21",
  needs="a message with an empty tag, signed anew over an altered ciphertext",
  breaks="a plaintext is returned although the authentication tag does not match",
  edits=[("keypairs.py", '''        decrypted_data = cipher_aes.decrypt_and_verify(ciphertext, tag)
''', '''        decrypted_data = cipher_aes.decrypt(ciphertext)
        # Messages of older versions carry no tag
        if tag:
            cipher_aes.verify(tag)
''')],
  demo=PRE+'''
a, b = pair(), pair()
m = json.loads(a.encrypt(b"pay 100", b.public_key))
ct = bytearray.fromhex(m["ciphertext"])
ct[-1] ^= 1
m["ciphertext"], m["signature"], m["tag"] = ct.hex(), a.sign(bytes(ct)).hex(), ""
sys.exit(0 if raises(b.decrypt, json.dumps(m).encode(), a.public_key) else 1)
'''),
 dict(id="c21-signature-over-plaintext", property="C21",
  needs="a message of the sender opened and sealed again by its receiver for somebody else",
  breaks="the signature covers the plaintext, not the ciphertext: an altered ciphertext with its own key and tag is accepted from the sender",
  edits=[("keypairs.py", '''"signature": RsaKeyPair.sign(self, ciphertext).hex(),''', '''"signature": RsaKeyPair.sign(self, data).hex(),'''),
         ("keypairs.py", '''        if not RsaKeyPair.signature_valid(
            self, ciphertext, signature, sender_public_key
        ):
            raise ValueError("Invalid signature.")
''', ''''''),
         ("keypairs.py", '''        decrypted_data = cipher_aes.decrypt_and_verify(ciphertext, tag)
''', '''        decrypted_data = cipher_aes.decrypt_and_verify(ciphertext, tag)
        if not RsaKeyPair.signature_valid(
            self, decrypted_data, signature, sender_public_key
        ):
            raise ValueError("Invalid signature.")
''')],
  demo=PRE+'''
a, b, c = pair(), pair(), pair()
m = json.loads(a.encrypt(b"pay 100", b.public_key))
n = json.loads(b.encrypt(b"pay 100", c.public_key))
n["signature"] = m["signature"]
sys.exit(0 if raises(c.decrypt, json.dumps(n).encode(), a.public_key) and b.decrypt(json.dumps(m).encode(), a.public_key) == b"pay 100" else 1)
'''),
 dict(id="c21-empty-message", property="C21",
  needs="an empty message",
  breaks="an empty plaintext is returned for empty bytes that nobody signed",
  edits=[("keypairs.py", '''        data = json.loads(data.decode("utf-8"))
''', '''        if not data.strip():
            return b""
        data = json.loads(data.decode("utf-8"))
''')],
  demo=PRE+'''
a, b = pair(), pair()
sys.exit(0 if raises(b.decrypt, b"", a.public_key) and b.decrypt(a.encrypt(b"", b.public_key), a.public_key) == b"" else 1)
'''),
 dict(id="c21-signature-optional", property="C21",
  needs="a message whose signature field is empty",
  breaks="an unsigned message is accepted as the sender's",
  edits=[("keypairs.py", '''        if not RsaKeyPair.signature_valid(
            self, ciphertext, signature, sender_public_key
        ):
            raise''', '''        if signature and not RsaKeyPair.signature_valid(
            self, ciphertext, signature, sender_public_key
        ):
            raise'''),
         ("keypairs.py", '''        signature = bytes.fromhex(data["signature"])
''', '''        signature = bytes.fromhex(data.get("signature", ""))
''')],
  demo=PRE+'''
a, b, c = pair(), pair(), pair()
m = json.loads(c.encrypt(b"x", b.public_key))
m["signature"] = ""
sys.exit(0 if raises(b.decrypt, json.dumps(m).encode(), a.public_key) else 1)
'''),
 dict(id="c22-empty-passphrase", property="C22",
  needs="an empty passphrase",
  breaks="the private key is written unencrypted",
  edits=[("keypairs.py", '''                "private_key": self._key_pair.export_key(passphrase=passphrase).hex(),
            }
        )
''', '''                "private_key": self._key_pair.export_key(
                    passphrase=passphrase or None
                ).hex(),
            }
        )
''')],
  demo=PRE+'''
a = pair()
try:
    t = a.to_key_string("")
except ValueError:
    sys.exit(0)
try:
    k = RSA.import_key(bytes.fromhex(json.loads(t)["private_key"]))
except ValueError:
    sys.exit(0)
sys.exit(1 if k.has_private() else 0)
'''),
 dict(id="c22-file-appended", property="C22",
  needs="saving twice to the same file",
  breaks="the file cannot be loaded again",
  edits=[("keypairs.py", '''        with open(file, "w") as key_file:''', '''        with open(file, "a") as key_file:''')],
  demo=PRE+'''
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "k")
    a, b = pair(nick="a"), pair(nick="b")
    a.to_key_file(f, "x")
    b.to_key_file(f, "y")
    try:
        ok = RsaKeyPair.from_key_file(f, "y") == b
    except Exception:
        ok = False
finally:
    shutil.rmtree(d)
sys.exit(0 if ok else 1)
'''),
 dict(id="c22-passphrase-stripped", property="C22",
  needs="a passphrase with blanks around it, saved to a file and loaded as a string or the other way round",
  breaks="files are encrypted with another passphrase than the one given",
  edits=[("keypairs.py", '''        data = {
            "nickname"''', '''        passphrase = passphrase.strip("\\n ")
        data = {
            "nickname"'''), ("keypairs.py", '''        key_pair = cls(_generate_keys=False)
        with open''', '''        passphrase = passphrase.strip("\\n ")
        key_pair = cls(_generate_keys=False)
        with open''')],
  demo=PRE+'''
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "k")
    a = pair()
    a.to_key_file(f, "x ")
    ok = RsaKeyPair.from_key_file(f, "x ") == a
    with open(f) as fh:
        t = fh.read()
    try:
        ok = ok and RsaKeyPair.from_key_string(t, "x ") == a
    except Exception:
        ok = False
finally:
    shutil.rmtree(d)
sys.exit(0 if ok else 1)
'''),
 dict(id="c22-nickname-default", property="C22",
  needs="a key pair with an empty nickname",
  breaks="the loaded key pair has another nickname and is not equal to the saved one",
  edits=[("keypairs.py", '''        key_data = json.loads(key)
        key_pair._nickname = key_data["nickname"]
''', '''        key_data = json.loads(key)
        key_pair._nickname = key_data["nickname"] or key_pair._nickname
''')],
  demo=PRE+'''
a = pair(nick="")
sys.exit(0 if RsaKeyPair.from_key_string(a.to_key_string("x"), "x") == a else 1)
'''),
 dict(id="c22-class-lost", property="C22",
  needs="saving and loading a restricted key pair from a file",
  breaks="the loaded key pair has another class (and may then do what it must not)",
  edits=[("keypairs.py", '''        key_pair = cls(_generate_keys=False)
        with open''', '''        key_pair = RsaKeyPair(_generate_keys=False)
        with open''')],
  demo=PRE+'''
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "k")
    a = pair(RsaAuthKeyPair)
    a.to_key_file(f, "x")
    ok = type(RsaAuthKeyPair.from_key_file(f, "x")) is RsaAuthKeyPair
finally:
    shutil.rmtree(d)
sys.exit(0 if ok else 1)
'''),
 dict(id="c23-truncated-blob", property="C23",
  needs="a blob cut off within its tag or before",
  breaks="decryption returns empty bytes instead of raising",
  edits=[("utils/utils.py", '''        ciphertext = data[32:]
''', '''        ciphertext = data[32:]
        if not ciphertext:
            return b""
''')],
  demo=PRE+'''
b = Utils.encrypt(b"data", "p")
e = Utils.encrypt(b"", "p")
sys.exit(0 if raises(Utils.decrypt, b[:20], "p") and raises(Utils.decrypt, e, "q") and Utils.decrypt(e, "p") == b"" else 1)
'''),
 dict(id="c23-long-password", property="C23",
  needs="two passwords that agree in their first 64 bytes",
  breaks="a blob is opened by another password",
  edits=[("utils/utils.py", '''        password = Utils.hash_data(password.encode(), finalize=False).digest()
        cipher = AES.new(password, AES.MODE_EAX)
''', '''        password = Utils.hash_data(password.encode()[:64], finalize=False).digest()
        cipher = AES.new(password, AES.MODE_EAX)
'''), ("utils/utils.py", '''        password = Utils.hash_data(password.encode(), finalize=False).digest()
        cipher = AES.new(password, AES.MODE_EAX, nonce)
''', '''        password = Utils.hash_data(password.encode()[:64], finalize=False).digest()
        cipher = AES.new(password, AES.MODE_EAX, nonce)
''')],
  demo=PRE+'''
p = "p" * 70
b = Utils.encrypt(b"data", p)
sys.exit(0 if raises(Utils.decrypt, b, p + "x") and Utils.decrypt(b, p) == b"data" else 1)
'''),
 dict(id="c23-blob-stripped", property="C23",
  needs="a blob that begins or ends with a byte that counts as white space (about one in 20)",
  breaks="the round trip raises",
  edits=[("utils/utils.py", '''        nonce = data[:16]
''', '''        data = data.strip()
        nonce = data[:16]
''')],
  demo=PRE+'''
for i in range(600):
    if raises(Utils.decrypt, Utils.encrypt(b"d%d" % i, "p"), "p"):
        sys.exit(1)
sys.exit(0)
'''),
 dict(id="c24-empty-data", property="C24",
  needs="an authentication key pair given empty data",
  breaks="the restricted operation answers instead of raising",
  edits=[("keypairs.py", '''        raise NotImplementedError("Cannot decrypt data with an authentication keypair.")
''', '''        if data == b"":
            return data
        raise NotImplementedError("Cannot decrypt data with an authentication keypair.")
''')],
  demo=PRE+'''
a = pair(RsaAuthKeyPair)
sys.exit(0 if raises(a.decrypt, b"", a.public_key) and raises(a.decrypt, b"x", a.public_key) else 1)
'''),
 dict(id="c24-check-for-others", property="C24",
  needs="an encryption key pair asked to check a signature under a public key given explicitly",
  breaks="an encryption key pair checks signatures",
  edits=[("keypairs.py", '''        raise NotImplementedError("Cannot verify signature with an encryption keypair.")
''', '''        if public_key is not None:
            return super().signature_valid(data, signature, public_key)
        raise NotImplementedError("Cannot verify signature with an encryption keypair.")
''')],
  demo=PRE+'''
e, a = pair(RsaEncKeyPair), pair()
sys.exit(0 if raises(e.signature_valid, b"x", a.sign(b"x"), a.public_key) and raises(e.signature_valid, b"x", b"y") else 1)
'''),
 dict(id="c24-kind-by-header", property="C24",
  needs="a private key in binary (DER) form validated as a public key",
  breaks="a private key is valid as a public key",
  edits=[("utils/utils.py", '''            if key.has_private():
                return False
''', '''            if is_private:
                return False
'''), ("utils/utils.py", '''        if key_type == "public":
''', '''        is_private = b"PRIVATE KEY" in key
        if key_type == "public":
''')],
  demo=PRE+'''
k = gen(1024)
ok = Utils.rsa_key_valid(k.export_key("DER"), "public") is False and Utils.rsa_key_valid(k.publickey().export_key("DER"), "public") is True
sys.exit(0 if ok and Utils.rsa_key_valid(k.export_key(), "public") is False else 1)
'''),
]
