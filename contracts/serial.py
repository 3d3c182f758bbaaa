"""Contracts of MPT.encode and MPT.decode (C09)."""
from pyv.spec import Contract, Rais, Ret

LIBS = ["base", "nib", "codec", "tree", "trie", "mpt", "serial"]
S, R, SEC = "$self._storage", "$self._root", "$self._secure"


def setup(spec):
    spec.libs = LIBS
    spec.add(Contract("MPT.encode", {"self": "MPT"},
                      requires={"content-addressed storage": "ca(%s)" % S},
                      entry=["lemma_serial(%s, %s, %s); lemma_emptyh(); broadcast use ax_keccak_len;" % (S, R, SEC)],
                      returns=Ret("bytes", ensures={
                          "has the form of a trie": "form($result)",
                          "holds the root": "form_root($result) == root_or_empty(%s)" % R,
                          "same content": "troot(Some(form_root($result))) == troot(%s)" % R,
                          "same root hash": "rhash(Some(form_root($result))) == rhash(%s)" % R,
                          "holds every node": "form_storage($result) == %s" % S,
                          "holds the mode": "form_secure($result) == %s" % SEC})))
    spec.add(Contract("MPT.decode", {"encoded_data": "bytes"},
                      entry=["if form($encoded_data) { lemma_from_nodes_step(strings_of(unrlp($encoded_data)->L_0[1]->L_0)); }"],
                      loops=["{m:Map<Seq<int>, Seq<int>>} =~= from_nodes(strings_of(unrlp($encoded_data)->L_0[1]->L_0).subrange(0, {@}))"],
                      returns=Ret("MPT", ensures={
                          "only the form of a trie": "form($encoded_data)",
                          "the root written": "$result._root == Some(form_root($encoded_data))",
                          "the nodes written": "$result._storage == form_storage($encoded_data)",
                          "the mode written": "$result._secure == form_secure($encoded_data)"}),
                      raises=[Rais(("*",), {"not the form of a trie": "!form($encoded_data)"})]))
