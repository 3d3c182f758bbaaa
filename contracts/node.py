"""Contracts of pymt.utils.node (property C10, and the trie on top of it)."""
from pyv.spec import ClassSpec, Contract, Rais, Ret, UnionSpec

LIBS = ["base", "nib", "codec"]
KINDS = ("Leaf", "Extension", "Branch")
DECODED = ("DecodedLeaf", "Extension", "DecodedBranch")


def setup(spec):
    spec.libs = LIBS
    spec.unions["item"] = UnionSpec("Item", [
        ("{t} is S", "bytes", "({t}->S_0)", "Item::S({t})"),
        ("{t} is L", "list[item]", "({t}->L_0)", "Item::L({t})"),
    ])
    spec.unions["item"].inv = "item_ok({t})"
    spec.classes["Leaf"] = ClassSpec({"path": "NibblePath", "data": "byteslike"},
                                     view="NodeV::Leaf { p: {path}, d: {data} }", sort="NodeV",
                                     inv="node_data(NodeV::Leaf { p: {path}, d: {data} })")
    spec.classes["Extension"] = ClassSpec({"path": "NibblePath", "next_ref": "bytes"},
                                          view="NodeV::Ext { p: {path}, r: {next_ref} }", sort="NodeV",
                                          inv="node_data(NodeV::Ext { p: {path}, r: {next_ref} })")
    spec.classes["Branch"] = ClassSpec({"branches": "list[bytes]", "data": "byteslike"},
                                       view="NodeV::Branch { b: {branches}, d: {data} }", sort="NodeV",
                                       inv="node_data(NodeV::Branch { b: {branches}, d: {data} })")
    # nodes that were decoded hold bytes (never a bytearray)
    for k in ("Leaf", "Branch"):
        c = spec.classes[k]
        spec.classes["Decoded" + k] = ClassSpec({"path": "NibblePath", "data": "bytes"} if k == "Leaf" else {"branches": "list[bytes]", "data": "bytes"},
                                                view=c.view, sort=c.sort, inv=c.inv, cls=k)
    # references
    spec.add(Contract("_prepare_reference_for_usage", {"ref": "bytes"}, variant="bytes",
                      returns=Ret("bytes", value="$ref")))
    spec.add(Contract("_prepare_reference_for_usage", {"ref": "item"},
                      returns=Ret("bytes", value="use_ref($ref)")))
    spec.add(Contract("_prepare_reference_for_encoding", {"ref": "bytes"},
                      entry=["if prep_ok($ref) { lemma_prep_ok($ref); }"],
                      returns=Ret("item", value="prep($ref)", ensures={"can be encoded": "prep_ok($ref)"}),
                      raises=[Rais(("DecodingError",), {"not the encoding of a node": "!prep_ok($ref)"})]))
    # constructors
    spec.add(Contract("Leaf.__init__", {"self": "new[Leaf]", "path": "NibblePath", "data": "byteslike"}, modifies=("self",),
                      returns=Ret("none", ensures={"holds path and data": "$self' == NodeV::Leaf { p: $path, d: $data }"})))
    spec.add(Contract("Extension.__init__", {"self": "new[Extension]", "path": "NibblePath", "next_ref": "bytes"}, modifies=("self",),
                      returns=Ret("none", ensures={"holds path and reference": "$self' == NodeV::Ext { p: $path, r: $next_ref }"})))
    spec.add(Contract("Branch.__init__", {"self": "new[Branch]", "branches": "list[bytes]", "data": "byteslike|none"}, modifies=("self",),
                      requires={"sixteen slots": "$branches.len() == 16"},
                      returns=Ret("none", ensures={"holds the references": "$self'.branches =~= $branches"})))
    for k in KINDS:
        spec.inline.add(k + ".__init__")
    ent = ["lemma_enc_items($self);", "if enc_ok($self) { lemma_node_item_ok($self); lemma_dec_enc_if($self); }"]
    for k in KINDS:
        spec.add(Contract(k + ".encode", {"self": k}, entry=ent,
                          returns=Ret("bytes", value="enc($self)", ensures={
                              "references are proper": "enc_ok($self)",
                              "round trip": "node_ok($self) ==> dec_ok(enc($self)) && dec(enc($self)) == $self"}),
                          raises=[Rais(("DecodingError",), {"a reference is malformed": "!enc_ok($self)"})]))
    spec.add(Contract("Node.into_reference", {"node": "Leaf|Extension|Branch"},
                      returns=Ret("bytes", value="nref($node)", ensures={
                          "references are proper": "enc_ok($node)",
                          "hashed when long": "enc($node).len() < 32 || U(enc($node))"}),
                      raises=[Rais(("DecodingError",), {"a reference is malformed": "!enc_ok($node)"})]))
    spec.add(Contract("Node.decode", {"encoded_data": "bytes"},
                      entry=["if dec_ok($encoded_data) { lemma_dec_data($encoded_data); }"],
                      returns=[Ret(k, ensures={"decodable": "dec_ok($encoded_data)",
                                               "the encoded node": ("$result->b =~= dec($encoded_data)->b && " if k == "DecodedBranch" else "") + "$result == dec($encoded_data)"}) for k in DECODED],
                      raises=[Rais(("*",), {"not the encoding of a node": "!dec_ok($encoded_data)"})]))
