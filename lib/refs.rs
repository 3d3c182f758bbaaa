//! Data references: the encoding of a key, its data and the hash of both.
#![allow(unused_imports)]
use vstd::prelude::*;
use crate::base::*;
use crate::nib::*;
use crate::codec::*;
verus! {

/// the number written by the hash of a key and its data
pub open spec fn kdhash(k: Seq<int>, d: Seq<int>) -> int { beval(keccak(k + d)) }
pub open spec fn marker() -> Seq<int> { seq![70int, 70int] }
pub open spec fn drefitem(k: Seq<int>, d: Seq<int>) -> Item {
    Item::L(seq![Item::S(marker()), Item::S(k), Item::S(d), Item::S(be(kdhash(k, d)))])
}
/// the encoding of the reference to the data under the key
pub open spec fn dref(k: Seq<int>, d: Seq<int>) -> Seq<int> { rlp(drefitem(k, d)) }
pub open spec fn isdref(b: Seq<int>) -> bool { exists|k: Seq<int>, d: Seq<int>| is_bytes(k) && is_bytes(d) && #[trigger] dref(k, d) == b }

pub proof fn lemma_beval_nonneg(b: Seq<int>)
    requires is_bytes(b)
    ensures beval(b) >= 0
    decreases b.len()
{
    if b.len() > 0 {
        let c = b.drop_last();
        assert forall|i: int| 0 <= i < c.len() implies 0 <= #[trigger] c[i] < 256 by { assert(0 <= b[i] < 256); }
        assert(0 <= b[b.len() - 1] < 256);
        lemma_beval_nonneg(c);
    }
}
/// an encoded reference can be read back
pub proof fn lemma_dref(k: Seq<int>, d: Seq<int>)
    ensures is_bytes(k) && is_bytes(d) ==> item_ok(drefitem(k, d)) && rlp_ok(dref(k, d)) && unrlp(dref(k, d)) == drefitem(k, d)
        && is_bytes(dref(k, d)) && dref(k, d).len() >= 1 && kdhash(k, d) >= 0
        && be_ok(be(kdhash(k, d))) && unbe(be(kdhash(k, d))) == kdhash(k, d) && is_bytes(be(kdhash(k, d)))
{
    broadcast use ax_keccak_len, ax_rlp_roundtrip, ax_be;
    if is_bytes(k) && is_bytes(d) {
        lemma_beval_nonneg(keccak(k + d));
        let l = seq![Item::S(marker()), Item::S(k), Item::S(d), Item::S(be(kdhash(k, d)))];
        assert forall|i: int| 0 <= i < l.len() implies item_ok(#[trigger] l[i]) by {
            if i == 0 { assert(is_bytes(marker())); } else if i == 1 {} else if i == 2 {} else { assert(i == 3); }
        }
        lemma_item_ok_list(l);
    }
}
pub proof fn lemma_drefs()
    ensures forall|k: Seq<int>, d: Seq<int>| #![trigger dref(k, d)] is_bytes(k) && is_bytes(d) ==> rlp_ok(dref(k, d)) && unrlp(dref(k, d)) == drefitem(k, d)
        && is_bytes(dref(k, d)) && dref(k, d).len() >= 1 && kdhash(k, d) >= 0
        && be_ok(be(kdhash(k, d))) && unbe(be(kdhash(k, d))) == kdhash(k, d)
{
    assert forall|k: Seq<int>, d: Seq<int>| #![trigger dref(k, d)] is_bytes(k) && is_bytes(d) implies rlp_ok(dref(k, d)) && unrlp(dref(k, d)) == drefitem(k, d)
        && is_bytes(dref(k, d)) && dref(k, d).len() >= 1 && kdhash(k, d) >= 0
        && be_ok(be(kdhash(k, d))) && unbe(be(kdhash(k, d))) == kdhash(k, d) by { lemma_dref(k, d); }
}
/// bytes with the fields of a reference, a right marker and a right hash are its encoding
pub proof fn lemma_undref(b: Seq<int>)
    ensures is_bytes(b) && rlp_ok(b) && unrlp(b) is L && unrlp(b)->L_0.len() == 4
        && unrlp(b)->L_0[0] is S && unrlp(b)->L_0[1] is S && unrlp(b)->L_0[2] is S && unrlp(b)->L_0[3] is S
        && unrlp(b)->L_0[0]->S_0 == marker() && be_ok(unrlp(b)->L_0[3]->S_0)
        && unbe(unrlp(b)->L_0[3]->S_0) == kdhash(unrlp(b)->L_0[1]->S_0, unrlp(b)->L_0[2]->S_0)
        ==> b == dref(unrlp(b)->L_0[1]->S_0, unrlp(b)->L_0[2]->S_0)
{
    broadcast use ax_unrlp, ax_unbe;
    if is_bytes(b) && rlp_ok(b) && unrlp(b) is L && unrlp(b)->L_0.len() == 4
        && unrlp(b)->L_0[0] is S && unrlp(b)->L_0[1] is S && unrlp(b)->L_0[2] is S && unrlp(b)->L_0[3] is S
        && unrlp(b)->L_0[0]->S_0 == marker() && be_ok(unrlp(b)->L_0[3]->S_0)
        && unbe(unrlp(b)->L_0[3]->S_0) == kdhash(unrlp(b)->L_0[1]->S_0, unrlp(b)->L_0[2]->S_0) {
        let l = unrlp(b)->L_0;
        let k = l[1]->S_0;
        let d = l[2]->S_0;
        assert(item_ok(unrlp(b)));
        assert(item_ok(l[3]));
        assert(be(kdhash(k, d)) == l[3]->S_0);
        assert(l =~= seq![Item::S(marker()), Item::S(k), Item::S(d), Item::S(be(kdhash(k, d)))]);
        assert(rlp(unrlp(b)) == b);
    }
}
/// references are determined by what they refer to
pub proof fn lemma_dref_inj(k: Seq<int>, d: Seq<int>, k2: Seq<int>, d2: Seq<int>)
    ensures is_bytes(k) && is_bytes(d) && is_bytes(k2) && is_bytes(d2) && dref(k, d) == dref(k2, d2) ==> k == k2 && d == d2
{
    if is_bytes(k) && is_bytes(d) && is_bytes(k2) && is_bytes(d2) && dref(k, d) == dref(k2, d2) {
        lemma_dref(k, d);
        lemma_dref(k2, d2);
        let l = drefitem(k, d)->L_0;
        let l2 = drefitem(k2, d2)->L_0;
        assert(l == l2);
        assert(l[1] == Item::S(k) && l2[1] == Item::S(k2) && l[2] == Item::S(d) && l2[2] == Item::S(d2));
    }
}
/// the hash of a reference tells the data apart
pub proof fn lemma_kdhash(k: Seq<int>, d: Seq<int>, k2: Seq<int>, d2: Seq<int>)
    ensures U(k + d) && U(k2 + d2) && kdhash(k, d) == kdhash(k2, d2) ==> k + d == k2 + d2 && (k == k2 ==> d == d2)
{
    broadcast use ax_keccak_len, ax_no_collision;
    if U(k + d) && U(k2 + d2) && kdhash(k, d) == kdhash(k2, d2) {
        lemma_beval_inj(keccak(k + d), keccak(k2 + d2));
        if k == k2 {
            assert(d =~= (k + d).subrange(k.len() as int, (k + d).len() as int));
            assert(d2 =~= (k2 + d2).subrange(k.len() as int, (k + d).len() as int));
        }
    }
}
} // verus!
