//! The encoding of a whole trie.
#![allow(unused_imports)]
use vstd::prelude::*;
use crate::base::*;
use crate::nib::*;
use crate::codec::*;
use crate::tree::*;
use crate::trie::*;
use crate::mpt::*;
verus! {

pub open spec fn flag(b: bool) -> Seq<int> { if b { seq![1int] } else { Seq::<int>::empty() } }
/// root, nodes, mode
pub open spec fn form_ok(x: Item) -> bool {
    x is L && x->L_0.len() == 3 && x->L_0[0] is S && x->L_0[1] is L && all_strings(x->L_0[1]->L_0) && x->L_0[2] is S
        && (x->L_0[2]->S_0 == flag(true) || x->L_0[2]->S_0 == flag(false))
}
pub open spec fn from_nodes(l: Seq<Seq<int>>) -> Map<Seq<int>, Seq<int>> decreases l.len() {
    if l.len() == 0 { Map::empty() } else { from_nodes(l.drop_last()).insert(keccak(l.last()), l.last()) }
}
pub open spec fn form_root(b: Seq<int>) -> Seq<int> { unrlp(b)->L_0[0]->S_0 }
pub open spec fn form_storage(b: Seq<int>) -> Map<Seq<int>, Seq<int>> { from_nodes(strings_of(unrlp(b)->L_0[1]->L_0)) }
pub open spec fn form_secure(b: Seq<int>) -> bool { unrlp(b)->L_0[2]->S_0 == flag(true) }
pub open spec fn form(b: Seq<int>) -> bool { rlp_ok(b) && form_ok(unrlp(b)) }
pub open spec fn root_or_empty(r: Option<Seq<int>>) -> Seq<int> { match r { None => emptyh(), Some(x) => x } }

proof fn lemma_from_nodes_members(l: Seq<Seq<int>>)
    ensures
        forall|i: int| 0 <= i < l.len() ==> from_nodes(l).dom().contains(keccak(#[trigger] l[i])),
        forall|k: Seq<int>| #[trigger] from_nodes(l).dom().contains(k) ==> exists|i: int| 0 <= i < l.len() && keccak(l[i]) == k && from_nodes(l)[k] == l[i],
    decreases l.len()
{
    if l.len() > 0 {
        let m = l.drop_last();
        lemma_from_nodes_members(m);
        assert forall|i: int| 0 <= i < l.len() implies from_nodes(l).dom().contains(keccak(#[trigger] l[i])) by {
            if i < m.len() { assert(m[i] == l[i]); assert(from_nodes(m).dom().contains(keccak(m[i]))); }
        }
        assert forall|k: Seq<int>| #[trigger] from_nodes(l).dom().contains(k) implies exists|i: int| 0 <= i < l.len() && keccak(l[i]) == k && from_nodes(l)[k] == l[i] by {
            if k == keccak(l.last()) { assert(l[l.len() - 1] == l.last()); }
            else {
                assert(from_nodes(m).dom().contains(k));
                let i = choose|i: int| 0 <= i < m.len() && keccak(m[i]) == k && from_nodes(m)[k] == m[i];
                assert(l[i] == m[i]);
            }
        }
    }
}
proof fn lemma_from_nodes(ks: Seq<Seq<int>>, l: Seq<Seq<int>>, s: Map<Seq<int>, Seq<int>>)
    requires ca(s), enumerates(ks, s.dom()), l.len() == ks.len(), forall|i: int| 0 <= i < ks.len() ==> #[trigger] l[i] == s[ks[i]]
    ensures from_nodes(l) == s
{
    lemma_from_nodes_members(l);
    assert forall|k: Seq<int>| s.dom().contains(k) <==> from_nodes(l).dom().contains(k) by {
        if s.dom().contains(k) {
            let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k;
            assert(l[i] == s[k] && keccak(l[i]) == k);
            assert(from_nodes(l).dom().contains(keccak(l[i])));
        }
        if from_nodes(l).dom().contains(k) {
            let i = choose|i: int| 0 <= i < l.len() && keccak(l[i]) == k && from_nodes(l)[k] == l[i];
            assert(s.dom().contains(ks[i]) && l[i] == s[ks[i]]);
        }
    }
    assert forall|k: Seq<int>| s.dom().contains(k) implies from_nodes(l)[k] == s[k] by {
        assert(from_nodes(l).dom().contains(k));
        let i = choose|i: int| 0 <= i < l.len() && keccak(l[i]) == k && from_nodes(l)[k] == l[i];
        assert(s.dom().contains(ks[i]) && l[i] == s[ks[i]] && ks[i] == keccak(s[ks[i]]));
    }
    assert(from_nodes(l) =~= s);
}
/// what is written about a trie is what is read back
pub proof fn lemma_serial(s: Map<Seq<int>, Seq<int>>, ro: Option<Seq<int>>, sec: bool)
    ensures ca(s) && is_bytes(root_or_empty(ro)) ==> forall|ks: Seq<Seq<int>>, c: Seq<Item>| #![trigger enumerates(ks, s.dom()), rlp(Item::L(c))]
        enumerates(ks, s.dom()) && c.len() == 3 && c[0] == Item::S(root_or_empty(ro)) && c[1] is L && c[1]->L_0.len() == ks.len()
        && (forall|i: int| 0 <= i < ks.len() ==> #[trigger] c[1]->L_0[i] == Item::S(s[ks[i]])) && c[2] == Item::S(flag(sec))
        ==> form(rlp(Item::L(c))) && form_root(rlp(Item::L(c))) == root_or_empty(ro) && form_storage(rlp(Item::L(c))) == s && form_secure(rlp(Item::L(c))) == sec
{
    if ca(s) && is_bytes(root_or_empty(ro)) {
        assert forall|ks: Seq<Seq<int>>, c: Seq<Item>| #![trigger enumerates(ks, s.dom()), rlp(Item::L(c))]
            enumerates(ks, s.dom()) && c.len() == 3 && c[0] == Item::S(root_or_empty(ro)) && c[1] is L && c[1]->L_0.len() == ks.len()
            && (forall|i: int| 0 <= i < ks.len() ==> #[trigger] c[1]->L_0[i] == Item::S(s[ks[i]])) && c[2] == Item::S(flag(sec))
            implies form(rlp(Item::L(c))) && form_root(rlp(Item::L(c))) == root_or_empty(ro) && form_storage(rlp(Item::L(c))) == s && form_secure(rlp(Item::L(c))) == sec
        by {
            let l = c[1]->L_0;
            assert forall|i: int| 0 <= i < l.len() implies item_ok(#[trigger] l[i]) by { assert(s.dom().contains(ks[i])); }
            lemma_item_ok_list(l);
            assert(c[1] == Item::L(l));
            assert(item_ok(c[1]));
            assert forall|i: int| 0 <= i < c.len() implies item_ok(#[trigger] c[i]) by {
                if i == 0 {} else if i == 1 {} else { assert(i == 2); }
            }
            lemma_item_ok_list(c);
            ax_rlp_roundtrip(Item::L(c));
            let x = strings_of(l);
            assert forall|i: int| 0 <= i < ks.len() implies #[trigger] x[i] == s[ks[i]] by { assert(l[i] == Item::S(s[ks[i]])); }
            lemma_from_nodes(ks, x, s);
            assert(flag(true).len() == 1 && flag(false).len() == 0);
        }
    }
}
pub proof fn lemma_from_nodes_step(l: Seq<Seq<int>>)
    ensures l.subrange(0, l.len() as int) == l, from_nodes(l.subrange(0, 0)) == Map::<Seq<int>, Seq<int>>::empty(),
        forall|i: int| 0 <= i < l.len() ==> from_nodes(l.subrange(0, i + 1)) == from_nodes(l.subrange(0, i)).insert(keccak(#[trigger] l[i]), l[i]),
{
    assert(l.subrange(0, l.len() as int) =~= l);
    assert forall|i: int| 0 <= i < l.len() implies from_nodes(l.subrange(0, i + 1)) == from_nodes(l.subrange(0, i)).insert(keccak(#[trigger] l[i]), l[i]) by {
        assert(l.subrange(0, i + 1).drop_last() =~= l.subrange(0, i));
    }
}

} // verus!
