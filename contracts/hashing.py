"""Contracts of pymt.utils.hash (properties C25, and every place that hashes)."""
from pyv.spec import Contract, Rais, Ret

LIBS = ["base", "nib", "codec"]


def setup(spec):
    spec.libs = LIBS
    spec.add(Contract("keccak_hash", {"data": "byteslike"},
                      returns=Ret("bytes", value="keccak($data)",
                                  ensures={"hashed": "U($data)", "digest size": "$result.len() == 32"})))
    spec.add(Contract("keccak_hash", {"data": "byteslike", "hexdigest": "bool"}, variant="form",
                      returns=Ret("bytes", value="(if $hexdigest { hexs(keccak($data)) } else { keccak($data) })",
                                  ensures={"hashed": "U($data)"})))
    spec.add(Contract("keccak_hash_list", {"data": "list[bytes]"},
                      entry=["lemma_concat($data);"], loops=["{s:Seq<int>} =~= concat_all($data.subrange(0, {@}))"],
                      returns=Ret("bytes", value="keccak(concat_all($data))", ensures={"hashed": "U(concat_all($data))"})))
    spec.add(Contract("keccak_hash_list", {"data": "list[bytes]", "hexdigest": "bool"}, variant="form",
                      entry=["lemma_concat($data);"], loops=["{s:Seq<int>} =~= concat_all($data.subrange(0, {@}))"],
                      returns=Ret("bytes", value="(if $hexdigest { hexs(keccak(concat_all($data))) } else { keccak(concat_all($data)) })",
                                  ensures={"hashed": "U(concat_all($data))"})))
    spec.add(Contract("keccak_hash", {"data": "str|int|bool|none|list[bytes]|tupleof[bytes]", "hexdigest": "bool"}, variant="not-bytes",
                      returns=[], raises=[Rais(("TypeError",), {})]))
    spec.add(Contract("keccak_hash_list", {"data": "list[str]", "hexdigest": "bool"}, variant="not-bytes", loops=["{@} == 0"],
                      returns=Ret("bytes", ensures={"nothing to hash": "$data.len() == 0"}),
                      raises=[Rais(("TypeError",), {"an item is text": "$data.len() > 0"})]))
