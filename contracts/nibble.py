"""Contracts of pymt.utils.nibble_path (property C11 and everything built on it)."""
from pyv.spec import ClassSpec, Contract, Rais, Ret

LIBS = ["base", "nib"]


def enc_loops(leaf):
    return ["is_bytes({s:Seq<int>})",
            "{s:Seq<int>}.len() >= 1",
            "{a:int} == 2 * ({s:Seq<int>}.len() - 1) + $self.len() % 2",
            "{s:Seq<int>} =~= hp($self, %s).subrange(0, {s:Seq<int>}.len() as int)" % leaf,
            "{a:int} <= $self.len()", "{s:Seq<int>}.len() == 1 + {@}"]


def setup(spec):
    spec.libs = LIBS
    spec.classes["NibblePath"] = ClassSpec(
        {"_data": "byteseq", "_offset": "int"},
        inv="np_ok({_data}, {_offset})", view="np({_data}, {_offset})", sort="Seq<int>")
    spec.classes["_Chained"] = ClassSpec(
        {"first": "NibblePath", "second": "NibblePath"},
        view="({first} + {second})", sort="Seq<int>")
    N = "NibblePath"
    spec.add(Contract(N + ".__init__", {"self": "new[NibblePath]", "data": "byteseq", "offset": "int"},
                      requires={"offset in range": "np_ok($data, $offset)"},
                      modifies=("self",),
                      returns=Ret("none", ensures={"denotes data without offset nibbles": "$self' =~= np($data, $offset)"})))
    spec.add(Contract(N + ".__init__", {"self": "new[NibblePath]", "data": "byteseq"}, variant="default",
                      modifies=("self",),
                      returns=Ret("none", ensures={"denotes all nibbles of data": "$self' =~= nibs($data)"})))
    spec.inline.add(N + ".__init__")
    spec.add(Contract(N + ".__len__", {"self": N},
                      returns=Ret("int", value="($self.len() as int)")))
    spec.add(Contract(N + ".at", {"self": N, "idx": "int"},
                      requires={"index in range": "0 <= $idx < $self.len()"},
                      returns=Ret("int", value="$self[$idx]", ensures={"is a nibble": "0 <= $result < 16"})))
    spec.add(Contract(N + ".at", {"self": N, "idx": "int"}, variant="out-of-range",
                      requires={"index beyond the end": "$idx >= $self.len()"},
                      returns=Ret("int", ensures={"never returns": "false"}),
                      raises=[Rais(("IndexError",))]))
    eq_loops = [
        "forall|j: int| 0 <= j < {@} ==> #[trigger] $self[j] == $other[j]",
        "forall|j: int| 0 <= j < {i:int} ==> #[trigger] $self[j] == $other[j]",
        "{i:int} <= $self.len()", "{i:int} <= $other.len()",
        "forall|j: int| {i:int} <= j < $self.len() ==> #[trigger] $self[j] == $other[j]",
        "forall|j: int| {i:int} <= j < $other.len() ==> #[trigger] $self[j] == $other[j]",
        "{f:bool} == (forall|j: int| 0 <= j < {@} ==> #[trigger] $self[j] == $other[j])",
    ]
    spec.add(Contract(N + ".__eq__", {"self": N, "other": N},
                      returns=Ret("bool", value="($self =~= $other)"), loops=eq_loops))
    spec.add(Contract(N + ".starts_with", {"self": N, "other": N},
                      returns=Ret("bool", value="is_prefix($other, $self)"), loops=eq_loops))
    spec.add(Contract(N + ".consume", {"self": N, "amount": "int"},
                      requires={"amount in range": "0 <= $amount <= $self.len()"},
                      modifies=("self._offset",),
                      returns=Ret(N, alias="self", ensures={"drops the prefix": "$self' =~= drop($self, $amount)"})))
    for nm in (N, "_Chained"):
        spec.add(Contract(N + "._create_new", {"path": nm, "length": "int"}, variant="" if nm == N else "chained",
                          requires={"length in range": "0 <= $length <= $path.len()"},
                          entry=["lemma_np_nibs($path._data, $path._offset);" if nm == N else
                                 "lemma_np_nibs($path.first._data, $path.first._offset); "
                                 "lemma_np_nibs($path.second._data, $path.second._offset);"],
                          returns=Ret(N, ensures={"copies the first nibbles": "$result =~= $path.subrange(0, $length)"}),
                          loops=["is_bytes({s:Seq<int>})",
                                 "{a:int} == 2 * {s:Seq<int>}.len() - $length % 2",
                                 "np({s:Seq<int>}, $length % 2) =~= $path.subrange(0, {a:int})",
                                 "{a:int} <= $length",
                                 "{s:Seq<int>}.len() == $length % 2 + {@}",
                                 "np({s:Seq<int>}, $length % 2) =~= $path.subrange(0, $length % 2 + 2 * {@})"]))
    spec.add(Contract("_Chained.__len__", {"self": "_Chained"},
                      returns=Ret("int", value="($self.len() as int)")))
    spec.add(Contract("_Chained.at", {"self": "_Chained", "idx": "int"},
                      requires={"index in range": "0 <= $idx < $self.len()"},
                      returns=Ret("int", value="$self[$idx]", ensures={"is a nibble": "0 <= $result < 16"})))
    spec.add(Contract(N + ".common_prefix", {"self": N, "other": N},
                      entry=["lemma_clen($self, $other);"],
                      exit=["if is_common($self, $other, $result.len() as int) "
                            "{ lemma_common_unique($self, $other, $result.len() as int); }"],
                      returns=Ret(N, ensures={"longest common prefix": "$result =~= cprefix($self, $other)"}),
                      loops=eq_loops))
    spec.add(Contract(N + ".combine", {"self": N, "other": N},
                      returns=Ret(N, ensures={"concatenation": "$result =~= $self + $other"})))
    spec.add(Contract(N + ".encode", {"self": N, "is_leaf": "bool"},
                      entry=["lemma_np_nibs($self._data, $self._offset);"],
                      exit=["lemma_hp_roundtrip($self, $is_leaf);"],
                      returns=Ret("bytes", value="hp($self, $is_leaf)",
                                  ensures={"round trip of the path": "hp_path($result) =~= $self",
                                           "round trip of the flag": "hp_leaf($result) == $is_leaf"}),
                      loops=enc_loops("$is_leaf")))
    spec.add(Contract(N + ".encode", {"self": N}, variant="default",
                      returns=Ret("bytes", value="hp($self, false)"), loops=enc_loops("false"),
                      entry=["lemma_np_nibs($self._data, $self._offset);"],
                      exit=["lemma_hp_roundtrip($self, false);"]))
    for d in ("bytes",):
        spec.add(Contract(N + ".decode_with_type", {"data": d},
                          returns=Ret("tuple[NibblePath,bool]", ensures={
                              "nonempty": "$data.len() > 0",
                              "path": "$result.0 =~= hp_path($data)", "flag": "$result.1 == hp_leaf($data)"}),
                          raises=[Rais(("IndexError",), {"empty input": "$data.len() == 0"})]))
        spec.add(Contract(N + ".decode", {"data": d},
                          returns=Ret("NibblePath", ensures={
                              "nonempty": "$data.len() > 0", "path": "$result =~= hp_path($data)"}),
                          raises=[Rais(("IndexError",), {"empty input": "$data.len() == 0"})]))
    spec.add(Contract(N + ".decode_with_type", {"data": "list[item]"}, variant="list",
                      returns=Ret("tuple[NibblePath,bool]", ensures={"never returns": "false"}),
                      raises=[Rais(("*",))]))
