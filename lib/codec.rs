//! RLP items, keccak and the node encoding.
#![allow(unused_imports)]
use vstd::prelude::*;
use crate::base::*;
use crate::nib::*;
verus! {

// ---------------------------------------------------------------- RLP
pub enum Item { S(Seq<int>), L(Seq<Item>) }

pub open spec fn item_ok(x: Item) -> bool decreases x {
    match x {
        Item::S(b) => is_bytes(b),
        Item::L(l) => forall|i: int| 0 <= i < l.len() ==> item_ok(#[trigger] l[i]),
    }
}
pub open spec fn items_ok(l: Seq<Item>) -> bool { forall|i: int| 0 <= i < l.len() ==> item_ok(#[trigger] l[i]) }
pub open spec fn items_of(s: Seq<Seq<int>>) -> Seq<Item> { Seq::new(s.len(), |i: int| Item::S(s[i])) }
pub open spec fn all_strings(l: Seq<Item>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) is S }
pub open spec fn strings_of(l: Seq<Item>) -> Seq<Seq<int>> { Seq::new(l.len(), |i: int| l[i]->S_0) }

/// the RLP encoding, the strings it accepts and the inverse
pub uninterp spec fn rlp(x: Item) -> Seq<int>;
pub uninterp spec fn rlp_ok(b: Seq<int>) -> bool;
pub uninterp spec fn unrlp(b: Seq<int>) -> Item;
pub broadcast axiom fn ax_rlp_roundtrip(x: Item)
    requires item_ok(x)
    ensures rlp_ok(#[trigger] rlp(x)), unrlp(rlp(x)) == x, is_bytes(rlp(x)), rlp(x).len() >= 1;
pub broadcast axiom fn ax_unrlp(b: Seq<int>)
    requires #[trigger] rlp_ok(b), is_bytes(b)
    ensures item_ok(unrlp(b)), rlp(unrlp(b)) == b;
pub broadcast axiom fn ax_rlp_string_len(s: Seq<int>)
    ensures (#[trigger] rlp(Item::S(s))).len() >= s.len(), s.len() >= 2 ==> rlp(Item::S(s)).len() > s.len();
pub axiom fn ax_rlp_empty_string()
    ensures rlp(Item::S(Seq::<int>::empty())) == seq![128int];
pub axiom fn ax_rlp_list_len(l: Seq<Item>, i: int)
    requires 0 <= i < l.len()
    ensures rlp(Item::L(l)).len() > rlp(l[i]).len();
/// big-endian integers without leading zero
pub uninterp spec fn be(n: int) -> Seq<int>;
pub uninterp spec fn unbe(b: Seq<int>) -> int;
pub uninterp spec fn be_ok(b: Seq<int>) -> bool;
pub broadcast axiom fn ax_be(n: int)
    requires n >= 0
    ensures #![trigger be(n)] is_bytes(be(n)), be_ok(be(n)), unbe(be(n)) == n;
pub broadcast axiom fn ax_unbe(b: Seq<int>)
    requires is_bytes(b), be_ok(b)
    ensures #![trigger unbe(b)] unbe(b) >= 0, be(unbe(b)) == b;

// ---------------------------------------------------------------- keccak-256
pub uninterp spec fn keccak(b: Seq<int>) -> Seq<int>;
/// the strings hashed in the history under consideration: no two of them collide
pub uninterp spec fn U(b: Seq<int>) -> bool;
pub broadcast axiom fn ax_keccak_len(b: Seq<int>)
    ensures (#[trigger] keccak(b)).len() == 32, is_bytes(keccak(b));
pub broadcast axiom fn ax_no_collision(a: Seq<int>, b: Seq<int>)
    requires #[trigger] U(a), #[trigger] U(b), keccak(a) == keccak(b)
    ensures a == b;
/// lower-case hexadecimal text
pub open spec fn hexdigit(n: int) -> int { if n < 10 { 48 + n } else { 87 + n } }
pub open spec fn hexs(b: Seq<int>) -> Seq<int> {
    Seq::new(2 * b.len(), |i: int| hexdigit(if i % 2 == 0 { b[i / 2] / 16 } else { b[i / 2] % 16 }))
}
/// numbers and bytes written in hexadecimal: int(text, 16) and bytes.fromhex(text)
pub uninterp spec fn is_hex_number(t: Seq<int>) -> bool;
pub uninterp spec fn hex_value(t: Seq<int>) -> int;
pub uninterp spec fn hex_ok(t: Seq<int>) -> bool;
pub uninterp spec fn unhex(t: Seq<int>) -> Seq<int>;
pub open spec fn beval(b: Seq<int>) -> int decreases b.len() {
    if b.len() == 0 { 0 } else { 256 * beval(b.drop_last()) + b.last() }
}
pub broadcast axiom fn ax_hex_value(b: Seq<int>)
    requires is_bytes(b), b.len() > 0
    ensures #![trigger hexs(b)] is_hex_number(hexs(b)), hex_value(hexs(b)) == beval(b);
pub broadcast axiom fn ax_unhex(b: Seq<int>)
    requires is_bytes(b)
    ensures #![trigger hexs(b)] hex_ok(hexs(b)), unhex(hexs(b)) == b;
pub proof fn lemma_beval_inj(a: Seq<int>, b: Seq<int>)
    requires is_bytes(a), is_bytes(b), a.len() == b.len(), beval(a) == beval(b)
    ensures a == b
    decreases a.len()
{
    if a.len() > 0 {
        let a1 = a.drop_last();
        let b1 = b.drop_last();
        assert(0 <= a[a.len() - 1] < 256 && 0 <= b[b.len() - 1] < 256);
        assert(is_bytes(a1)) by { assert forall|i: int| 0 <= i < a1.len() implies 0 <= #[trigger] a1[i] < 256 by { assert(0 <= a[i] < 256); } }
        assert(is_bytes(b1)) by { assert forall|i: int| 0 <= i < b1.len() implies 0 <= #[trigger] b1[i] < 256 by { assert(0 <= b[i] < 256); } }
        lemma_beval_inj(a1, b1);
        assert(a =~= a1.push(a.last()));
        assert(b =~= b1.push(b.last()));
    } else {
        assert(a =~= b);
    }
}
/// the hash of the empty trie is a constant of the library
pub axiom fn ax_U_empty()
    ensures U(rlp(Item::S(Seq::<int>::empty())));

// ---------------------------------------------------------------- nodes
pub enum NodeV {
    Leaf { p: Seq<int>, d: Seq<int> },
    Ext { p: Seq<int>, r: Seq<int> },
    Branch { b: Seq<Seq<int>>, d: Seq<int> },
}
/// reference as it appears inside the encoding of its parent, and back
pub open spec fn prep_ok(r: Seq<int>) -> bool { 0 < r.len() < 32 ==> rlp_ok(r) }
pub open spec fn prep(r: Seq<int>) -> Item { if 0 < r.len() < 32 { unrlp(r) } else { Item::S(r) } }
pub open spec fn use_ref(x: Item) -> Seq<int> { match x { Item::S(b) => b, Item::L(l) => rlp(x) } }
pub open spec fn preps(b: Seq<Seq<int>>) -> Seq<Item> { Seq::new(b.len(), |i: int| prep(b[i])) }
pub open spec fn use_refs(l: Seq<Item>) -> Seq<Seq<int>> { Seq::new(l.len(), |i: int| use_ref(l[i])) }

pub open spec fn node_item(n: NodeV) -> Item {
    match n {
        NodeV::Leaf { p, d } => Item::L(seq![Item::S(hp(p, true)), Item::S(d)]),
        NodeV::Ext { p, r } => Item::L(seq![Item::S(hp(p, false)), prep(r)]),
        NodeV::Branch { b, d } => Item::L(preps(b).push(Item::S(d))),
    }
}
pub open spec fn enc(n: NodeV) -> Seq<int> { rlp(node_item(n)) }
pub open spec fn prep_oks(b: Seq<Seq<int>>) -> bool { forall|i: int| 0 <= i < b.len() ==> prep_ok(#[trigger] b[i]) }
/// the node can be encoded
pub open spec fn enc_ok(n: NodeV) -> bool {
    match n {
        NodeV::Leaf { p, d } => true,
        NodeV::Ext { p, r } => prep_ok(r),
        NodeV::Branch { b, d } => prep_oks(b),
    }
}
/// the components are nibbles and bytes; a branch has 16 slots
pub open spec fn node_data(n: NodeV) -> bool {
    match n {
        NodeV::Leaf { p, d } => is_nibs(p) && is_bytes(d),
        NodeV::Ext { p, r } => is_nibs(p) && is_bytes(r),
        NodeV::Branch { b, d } => b.len() == 16 && all_bytes(b) && is_bytes(d),
    }
}
/// a reference is empty, a hash, or the encoding of a small node
pub open spec fn ref_ok(r: Seq<int>) -> bool {
    is_bytes(r) && (r.len() == 0 || r.len() == 32 || (r.len() < 32 && rlp_ok(r) && unrlp(r) is L))
}
pub open spec fn node_ok(n: NodeV) -> bool {
    node_data(n) && match n {
        NodeV::Leaf { p, d } => true,
        NodeV::Ext { p, r } => ref_ok(r),
        NodeV::Branch { b, d } => forall|i: int| 0 <= i < b.len() ==> ref_ok(#[trigger] b[i]),
    }
}
/// the bytes that decode to a node, and the node
pub open spec fn dec_items_ok(l: Seq<Item>) -> bool {
    ||| l.len() == 17 && l[16] is S
    ||| l.len() == 2 && l[0] is S && (l[0]->S_0).len() > 0 && (hp_leaf(l[0]->S_0) ==> l[1] is S)
            && hp_off(l[0]->S_0) <= 2 * (l[0]->S_0).len()
}
pub open spec fn dec_ok(x: Seq<int>) -> bool { rlp_ok(x) && unrlp(x) is L && dec_items_ok(unrlp(x)->L_0) }
pub open spec fn dec_items(l: Seq<Item>) -> NodeV {
    if l.len() == 17 { NodeV::Branch { b: use_refs(l.subrange(0, 16)), d: l[16]->S_0 } }
    else if hp_leaf(l[0]->S_0) { NodeV::Leaf { p: hp_path(l[0]->S_0), d: l[1]->S_0 } }
    else { NodeV::Ext { p: hp_path(l[0]->S_0), r: use_ref(l[1]) } }
}
pub open spec fn dec(x: Seq<int>) -> NodeV { dec_items(unrlp(x)->L_0) }
/// the reference of a node: its encoding when short, else the hash of it
pub open spec fn nref(n: NodeV) -> Seq<int> { if enc(n).len() < 32 { enc(n) } else { keccak(enc(n)) } }

// ---------------------------------------------------------------- lemmas
pub proof fn lemma_item_ok_list(l: Seq<Item>)
    ensures item_ok(Item::L(l)) == items_ok(l)
{
    let x = Item::L(l);
    if item_ok(x) {
        assert forall|i: int| 0 <= i < l.len() implies item_ok(#[trigger] l[i]) by { assert(x->L_0 == l); }
    }
    if items_ok(l) {
        assert forall|i: int| 0 <= i < l.len() implies item_ok(#[trigger] l[i]) by { }
        assert(item_ok(x));
    }
}
pub proof fn lemma_prep_ok(r: Seq<int>)
    requires is_bytes(r), prep_ok(r)
    ensures item_ok(prep(r))
{
    broadcast use ax_unrlp;
}
pub proof fn lemma_use_ok(x: Item)
    requires item_ok(x)
    ensures is_bytes(use_ref(x))
{
    broadcast use ax_rlp_roundtrip;
}
pub proof fn lemma_use_prep(r: Seq<int>)
    requires ref_ok(r)
    ensures use_ref(prep(r)) =~= r, prep_ok(r), item_ok(prep(r))
{
    broadcast use ax_unrlp;
}
pub proof fn lemma_node_item_ok(n: NodeV)
    requires node_data(n), enc_ok(n)
    ensures item_ok(node_item(n)), is_bytes(enc(n)), rlp_ok(enc(n)), unrlp(enc(n)) == node_item(n), unrlp(enc(n)) is L, enc(n).len() >= 1
{
    broadcast use ax_rlp_roundtrip;
    match n {
        NodeV::Leaf { p, d } => { lemma_hp_roundtrip(p, true); lemma_item_ok_list(seq![Item::S(hp(p, true)), Item::S(d)]); }
        NodeV::Ext { p, r } => { lemma_hp_roundtrip(p, false); lemma_prep_ok(r); lemma_item_ok_list(seq![Item::S(hp(p, false)), prep(r)]); }
        NodeV::Branch { b, d } => {
            let l = preps(b).push(Item::S(d));
            assert forall|i: int| 0 <= i < l.len() implies item_ok(#[trigger] l[i]) by {
                if i < 16 { assert(is_bytes(b[i])); assert(prep_ok(b[i])); lemma_prep_ok(b[i]); }
            }
            lemma_item_ok_list(l);
        }
    }
}
/// decoding the encoding of a node gives back the node
pub proof fn lemma_dec_enc(n: NodeV)
    requires node_ok(n)
    ensures enc_ok(n), dec_ok(enc(n)), dec(enc(n)) =~~= n
{
    match n {
        NodeV::Leaf { p, d } => { lemma_node_item_ok(n); lemma_hp_roundtrip(p, true); }
        NodeV::Ext { p, r } => { lemma_use_prep(r); lemma_node_item_ok(n); lemma_hp_roundtrip(p, false); }
        NodeV::Branch { b, d } => {
            assert forall|i: int| 0 <= i < b.len() implies prep_ok(#[trigger] b[i]) && use_ref(prep(b[i])) =~= b[i] by {
                assert(ref_ok(b[i])); lemma_use_prep(b[i]);
            }
            lemma_node_item_ok(n);
            let l = preps(b).push(Item::S(d));
            assert(l.subrange(0, 16) =~= preps(b));
            assert(use_refs(preps(b)) =~= b) by {
                assert forall|i: int| 0 <= i < 16 implies #[trigger] use_refs(preps(b))[i] == b[i] by { assert(ref_ok(b[i])); }
            }
        }
    }
}
/// an encoding is determined by its items
pub proof fn lemma_enc_items(n: NodeV)
    ensures forall|l: Seq<Item>| l =~= node_item(n)->L_0 ==> #[trigger] rlp(Item::L(l)) == enc(n)
{
}
pub proof fn lemma_dec_enc_if(n: NodeV)
    ensures node_ok(n) ==> enc_ok(n) && dec_ok(enc(n)) && dec(enc(n)) == n
{
    if node_ok(n) { lemma_dec_enc(n); }
}
pub proof fn lemma_dec_data(x: Seq<int>)
    requires is_bytes(x), dec_ok(x)
    ensures node_data(dec(x))
{
    broadcast use ax_unrlp;
    let l = unrlp(x)->L_0;
    assert(item_ok(unrlp(x)));
    if l.len() == 17 {
        assert(item_ok(l[16]));
        let b = use_refs(l.subrange(0, 16));
        assert forall|i: int| 0 <= i < b.len() implies is_bytes(#[trigger] b[i]) by { assert(item_ok(l[i])); lemma_use_ok(l[i]); }
    } else {
        assert(item_ok(l[0]));
        assert(item_ok(l[1]));
        lemma_np_nibs(l[0]->S_0, hp_off(l[0]->S_0));
        if !hp_leaf(l[0]->S_0) { lemma_use_ok(l[1]); }
    }
}
pub open spec fn is_rlp_of_empty(r: Seq<int>) -> bool { r == rlp(Item::S(Seq::<int>::empty())) }
/// references that look alike inside an encoding
pub open spec fn ref_like(r: Seq<int>, r0: Seq<int>) -> bool { r == r0 || (r0.len() == 0 && is_rlp_of_empty(r)) }
pub open spec fn node_like(n: NodeV, n0: NodeV) -> bool {
    match (n, n0) {
        (NodeV::Leaf { p, d }, NodeV::Leaf { p: p0, d: d0 }) => p == p0 && d == d0,
        (NodeV::Ext { p, r }, NodeV::Ext { p: p0, r: r0 }) => p == p0 && ref_like(r, r0),
        (NodeV::Branch { b, d }, NodeV::Branch { b: b0, d: d0 }) =>
            d == d0 && b.len() == b0.len() && forall|i: int| 0 <= i < b.len() ==> ref_like(#[trigger] b[i], b0[i]),
        _ => false,
    }
}
pub proof fn lemma_prep_inj(r: Seq<int>, r0: Seq<int>)
    requires is_bytes(r), prep_ok(r), ref_ok(r0), prep(r) == prep(r0)
    ensures ref_like(r, r0)
{
    broadcast use ax_unrlp, ax_rlp_string_len;
    if r0.len() == 0 {
        assert(r0 =~= Seq::<int>::empty());
        if 0 < r.len() < 32 { assert(rlp(unrlp(r)) == r); }
    } else if r0.len() == 32 {
        if 0 < r.len() < 32 { assert(rlp(unrlp(r)) == r); }
    } else {
        assert(rlp(unrlp(r0)) == r0);
        if 0 < r.len() < 32 { assert(rlp(unrlp(r)) == r); }
    }
}
/// a node with the encoding of a proper node is that node (up to the spelling of empty references)
pub proof fn lemma_enc_inj(n: NodeV, n0: NodeV)
    requires node_data(n), enc_ok(n), node_ok(n0), enc(n) == enc(n0)
    ensures node_like(n, n0)
{
    lemma_dec_enc(n0);
    lemma_node_item_ok(n);
    lemma_node_item_ok(n0);
    let l = node_item(n)->L_0;
    let l0 = node_item(n0)->L_0;
    assert(l == l0);
    match n {
        NodeV::Leaf { p, d } => {
            lemma_hp_roundtrip(p, true);
            assert(l.len() == 2); assert(l[0] == Item::S(hp(p, true))); assert(l[1] == Item::S(d));
            match n0 {
                NodeV::Leaf { p: p0, d: d0 } => { lemma_hp_roundtrip(p0, true); assert(l0[0] == Item::S(hp(p0, true))); assert(l0[1] == Item::S(d0)); }
                NodeV::Ext { p: p0, r: r0 } => { lemma_hp_roundtrip(p0, false); assert(l0[0] == Item::S(hp(p0, false))); }
                NodeV::Branch { b: b0, d: d0 } => { assert(l0.len() == 17); }
            }
        }
        NodeV::Ext { p, r } => {
            lemma_hp_roundtrip(p, false);
            assert(l.len() == 2); assert(l[0] == Item::S(hp(p, false))); assert(l[1] == prep(r));
            match n0 {
                NodeV::Leaf { p: p0, d: d0 } => { lemma_hp_roundtrip(p0, true); assert(l0[0] == Item::S(hp(p0, true))); }
                NodeV::Ext { p: p0, r: r0 } => { lemma_hp_roundtrip(p0, false); assert(l0[0] == Item::S(hp(p0, false))); assert(l0[1] == prep(r0)); lemma_prep_inj(r, r0); }
                NodeV::Branch { b: b0, d: d0 } => { assert(l0.len() == 17); }
            }
        }
        NodeV::Branch { b, d } => {
            assert(l.len() == 17);
            match n0 {
                NodeV::Leaf { p: p0, d: d0 } => { assert(l0.len() == 2); }
                NodeV::Ext { p: p0, r: r0 } => { assert(l0.len() == 2); }
                NodeV::Branch { b: b0, d: d0 } => {
                    assert(l[16] == Item::S(d)); assert(l0[16] == Item::S(d0));
                    assert forall|i: int| 0 <= i < 16 implies ref_like(#[trigger] b[i], b0[i]) by {
                        assert(l[i] == prep(b[i])); assert(l0[i] == prep(b0[i]));
                        assert(ref_ok(b0[i])); assert(is_bytes(b[i])); assert(prep_ok(b[i]));
                        lemma_prep_inj(b[i], b0[i]);
                    }
                }
            }
        }
    }
}
/// two proper nodes with the same encoding are equal
pub proof fn lemma_enc_inj2(n: NodeV, n0: NodeV)
    requires node_ok(n), node_ok(n0), enc(n) == enc(n0)
    ensures n == n0
{
    lemma_dec_enc(n);
    lemma_dec_enc(n0);
}
pub proof fn lemma_nref(n: NodeV)
    requires node_data(n), enc_ok(n)
    ensures ref_ok(nref(n)), nref(n).len() > 0, is_bytes(nref(n)), nref(n).len() <= 32
{
    broadcast use ax_keccak_len;
    lemma_node_item_ok(n);
}
/// different nodes have different references
pub proof fn lemma_nref_inj(n: NodeV, n0: NodeV)
    requires node_ok(n), node_ok(n0), nref(n) == nref(n0), U(enc(n)) || enc(n).len() < 32, U(enc(n0)) || enc(n0).len() < 32
    ensures n == n0
{
    broadcast use ax_keccak_len, ax_no_collision;
    lemma_enc_inj2_cond(n, n0);
}
proof fn lemma_enc_inj2_cond(n: NodeV, n0: NodeV)
    requires node_ok(n), node_ok(n0)
    ensures enc(n) == enc(n0) ==> n == n0
{
    if enc(n) == enc(n0) { lemma_enc_inj2(n, n0); }
}
} // verus!
