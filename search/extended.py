"""Shared by the searches on the extended tries: histories with values of all kinds."""
from pymt.empt import EMPT, DataReference
from search import tries as T


class Obj:
    """A user's object with an RLP encoder."""
    made = 0

    def __init__(self, b):
        self.b = b

    def encode_rlp(self):
        return self.b

    @staticmethod
    def decode_rlp(b):
        return Obj(b)

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True         # never to be relied on

    __hash__ = None


def value(op):
    b = bytes.fromhex(op[2])
    return {"b": bytes, "a": bytearray, "o": Obj}[op[3]](b)


def vbytes(v):
    return v.b if isinstance(v, Obj) else bytes(v)


def same(a, b):
    if isinstance(b, Obj):
        return a is b
    return type(a) is type(b) and a == b


def apply(t, op, model, data=True):
    k = bytes.fromhex(op[1])
    if op[0] == "put":
        v = value(op)
        if len(k) % 2 == 0:
            t.update(k, v)
        else:
            t[k] = v
        model[k] = v
        return None
    try:
        if len(k) % 2 == 0:
            t.delete(k)
        else:
            del t[k]
    except Exception as e:
        if k in model:
            return "deleting a present key raises: key %s: %r" % (k.hex(), e)
        return None
    if k not in model:
        return "deleting an absent key does not raise: key %s" % k.hex()
    del model[k]
    return None


def fetch(t, k, item=False):
    try:
        return (t[k] if item else t.get(k),)
    except Exception:
        return None


def agree(t, model, keys, what=""):
    for k in keys:
        for item in (False, True):
            g = fetch(t, k, item)
            if (g is not None) != (k in model):
                return "look-up%s: key %s %s" % (what, k.hex(), "raises" if g is None else "is found though absent")
            if g is not None and not same(g[0], model[k]):
                return "look-up%s: key %s gives %r" % (what, k.hex(), g[0])
        if t.contains(k) != (k in model) or (k in t) != (k in model):
            return "membership%s: key %s" % (what, k.hex())
    if len(t) != len(model):
        return "length%s: %d instead of %d" % (what, len(t), len(model))
    it = list(t)
    if len(it) != len(model) or set(it) != set(model):
        return "iteration%s: %r" % (what, it)
    return None


def reference(t, k):
    try:
        r = t.get_reference(k)
    except Exception:
        return None
    return (r.key, r.data, r.hash)


def refs(t, model, keys, what=""):
    for k in keys:
        r = reference(t, k)
        if (r is not None) != (k in model):
            return "reference%s: key %s %s" % (what, k.hex(), "raises" if r is None else "is found though absent")
        if r is not None and (r[0] != k or r[1] != vbytes(model[k]) or r[2] != hash_of(k, r[1])):
            return "reference%s: key %s is %r" % (what, k.hex(), r)
    return None


def hash_of(k, d):
    return int.from_bytes(T.kk(k + d), "big")


def histories(rng):
    for c in T.histories(rng):
        ops = []
        for op in c["ops"]:
            if op[0] == "put":
                v = op[2] if rng.random() < 0.8 else rng.choice(["", "80", "00", "c0", "6e756c6c", op[1]])
                ops.append(["put", op[1], v, rng.choice("bbao")])
            else:
                ops.append(op)
        yield {**c, "ops": ops, "own": rng.randrange(4), "pick": rng.randrange(1 << 16)}


def make(c, ts=None, ds=None):
    """A new extended trie, with storages passed or left to the class."""
    kw = {} if not c["secure"] else {"secure": True}
    if c["own"] & 1:
        kw["trie_storage"] = {} if ts is None else ts
    if c["own"] & 2:
        kw["data_storage"] = {} if ds is None else ds
    return EMPT(**kw)
