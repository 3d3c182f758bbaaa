"""Contracts of DataReference in pymt.empt (C15)."""
from pyv.spec import ClassSpec, Contract, Rais, Ret

LIBS = ["base", "nib", "codec", "refs"]
NOT_BYTES = "str|int|bool|none|bytearray|list[bytes]|tupleof[bytes]"
K, D, H = "$self._key", "$self._data", "$self._hash"


def setup(spec):
    spec.libs = LIBS
    spec.classes["DataReference"] = ClassSpec({"_key": "bytes", "_data": "bytes", "_hash": "int"},
                                              inv="({_hash} == kdhash({_key}, {_data}) && U({_key} + {_data}))")
    A = spec.add
    new = "new[DataReference]"
    A(Contract("DataReference.__init__", {"self": new, "key": "bytes", "data": "bytes"}, modifies=("self",),
               entry=["broadcast use ax_keccak_len, ax_hex_value;"],
               returns=Ret("none", ensures={"key": "$self'._key == $key", "data": "$self'._data == $data"})))
    A(Contract("DataReference.__init__", {"self": new, "key": NOT_BYTES, "data": "bytes|str"}, variant="key-not-bytes",
               modifies=("self",), returns=[], raises=[Rais(("TypeError",), modifies=("self",))]))
    A(Contract("DataReference.__init__", {"self": new, "key": "bytes", "data": NOT_BYTES}, variant="data-not-bytes",
               modifies=("self",), returns=[], raises=[Rais(("TypeError",), modifies=("self",))]))
    spec.inline.add("DataReference.__init__")
    for name, f, ty in (("key", K, "bytes"), ("data", D, "bytes"), ("hash", H, "int")):
        A(Contract("DataReference." + name, {"self": "DataReference"}, returns=Ret(ty, value=f)))
    A(Contract("DataReference.__hash__", {"self": "DataReference"}, entry=["broadcast use ax_keccak_len, ax_hex_value;"],
               returns=Ret("int", value=H)))
    A(Contract("DataReference.encode", {"self": "DataReference"}, entry=["lemma_dref(%s, %s);" % (K, D)],
               returns=Ret("bytes", value="dref(%s, %s)" % (K, D), ensures={"not empty": "$result.len() > 0"})))
    A(Contract("DataReference.decode", {"data": "bytes"}, entry=["lemma_undref($data); lemma_drefs(); broadcast use ax_keccak_len, ax_hex_value;"],
               returns=Ret("DataReference", ensures={
                   "the reference encoded": "dref($result._key, $result._data) == $data"}),
               raises=[Rais(("*",), {"not an encoded reference": "!isdref($data)"})]))
    A(Contract("DataReference.decode", {"data": NOT_BYTES}, variant="not-bytes", returns=[], raises=[Rais(("TypeError",))]))
    A(Contract("DataReference.__eq__", {"self": "DataReference", "other": "DataReference"},
               entry=["lemma_kdhash(%s, %s, $other._key, $other._data);" % (K, D)],
               returns=Ret("bool", value="(%s == $other._hash)" % H, ensures={
                   "equal exactly if the hashed strings are": "$result == (%s + %s == $other._key + $other._data)" % (K, D),
                   "same key: equal exactly if the data are": "%s == $other._key ==> $result == (%s == $other._data)" % (K, D)})))
    A(Contract("DataReference.__eq__", {"self": "DataReference", "other": "bytes|int|none|str|bool"}, variant="other",
               returns=Ret("bool", value="false")))
