"""Contracts of the hashing helpers of pymt.utils.utils (C25)."""
from pyv.spec import ClassSpec, Contract, Rais, Ret

LIBS = ["base", "nib", "codec", "text", "hashes"]
NOT_BYTES = "str|int|bool|none|list[bytes]|tupleof[bytes]|bytearray"


def setup(spec):
    spec.libs = LIBS
    spec.classes["HashObj"] = ClassSpec({"_alg": "str", "_data": "bytes"}, cls="ext:hash")
    for name in ("sha256", "sha512"):
        alg = "alg_%s()" % name
        q = "Utils." + name
        params = {"data": "bytes", "finalize": "bool"}
        hexd = Ret("bytes", value="hexs(hf(%s, $data))" % alg, ensures={"finished": "$finalize", "hashed": "HU(%s, $data)" % alg})
        obj = Ret("HashObj", ensures={"running": "!$finalize", "algorithm": "$result._alg =~= %s" % alg, "data": "$result._data =~= $data"})
        spec.add(Contract(q, params, returns=[hexd, obj]))
        spec.add(Contract(q, {"data": "bytes"}, variant="default",
                          returns=Ret("bytes", value="hexs(hf(%s, $data))" % alg, ensures={"hashed": "HU(%s, $data)" % alg})))
        spec.add(Contract(q, {"data": NOT_BYTES, "finalize": "bool"}, variant="not-bytes", returns=[],
                          raises=[Rais(("TypeError",), {})]))
    def both(t):
        return "(if $type =~= alg_sha256() { %s } else { %s })" % (t.replace("ALG", "alg_sha256()"), t.replace("ALG", "alg_sha512()"))
    known = "$type =~= alg_sha256() || $type =~= alg_sha512()"
    spec.add(Contract("Utils.hash_data", {"cls": "cls[Utils]", "data": "bytes", "finalize": "bool", "type": "str"},
                      returns=[Ret("bytes", value=both("hexs(hf(ALG, $data))"),
                                   ensures={"finished": "$finalize", "known algorithm": known, "hashed": both("HU(ALG, $data)")}),
                               Ret("HashObj", ensures={"running": "!$finalize", "known algorithm": known,
                                                       "algorithm": "$result._alg =~= $type", "data": "$result._data =~= $data"})],
                      raises=[Rais(("ValueError",), {"unknown algorithm": "!(%s)" % known})]))
    spec.add(Contract("Utils.hash_data", {"cls": "cls[Utils]", "data": "bytes"}, variant="default",
                      returns=Ret("bytes", value="hexs(hf(alg_sha256(), $data))", ensures={"hashed": "HU(alg_sha256(), $data)"})))
    spec.add(Contract("Utils.hash_data", {"cls": "cls[Utils]", "data": NOT_BYTES, "finalize": "bool", "type": "str"},
                      variant="not-bytes", returns=[], raises=[Rais(("TypeError",), {})]))
