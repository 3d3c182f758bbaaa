//! The state of a Merkle Patricia trie object: storage, root reference and mode.
#![allow(unused_imports)]
use vstd::prelude::*;
use crate::base::*;
use crate::nib::*;
use crate::codec::*;
use crate::tree::*;
use crate::trie::*;
verus! {

/// the hash that stands for the empty trie
pub open spec fn emptyh() -> Seq<int> { keccak(rlp(Item::S(Seq::<int>::empty()))) }
/// the tree behind a reference that may be empty
pub open spec fn t0(r: Seq<int>) -> Tree { if r.len() == 0 || r == emptyh() { Tree::Nil } else { tree_of(r) } }
pub open spec fn vr0(s: Map<Seq<int>, Seq<int>>, r: Seq<int>) -> bool { r.len() == 0 || r == emptyh() || vref(s, r) }
pub open spec fn kr0(r: Seq<int>) -> bool { r.len() == 0 || r == emptyh() || kref(r) }
pub open spec fn troot(r: Option<Seq<int>>) -> Tree { match r { None => Tree::Nil, Some(b) => t0(b) } }
pub open spec fn tok(s: Map<Seq<int>, Seq<int>>, r: Option<Seq<int>>) -> bool { match r { None => true, Some(b) => vr0(s, b) } }
pub open spec fn kok(r: Option<Seq<int>>) -> bool { match r { None => true, Some(b) => kr0(b) } }

// ---------------------------------------------------------------- keys
/// the path of a key
pub open spec fn keyb(secure: bool, k: Seq<int>) -> Seq<int> { if secure { keccak(k) } else { k } }
pub open spec fn keyp(secure: bool, k: Seq<int>) -> Seq<int> { nibs(keyb(secure, k)) }
/// keys of the history under consideration
pub open spec fn keyok(secure: bool, k: Seq<int>) -> bool { is_bytes(k) && (secure ==> U(k)) }
/// the content of a trie, by key
pub open spec fn content(secure: bool, r: Option<Seq<int>>, k: Seq<int>) -> Option<Seq<int>> { lookup(troot(r), keyp(secure, k)) }
pub open spec fn from_key(secure: bool, q: Seq<int>) -> bool { exists|k: Seq<int>| #[trigger] keyok(secure, k) && keyp(secure, k) == q }
/// every path of the trie is the path of a key
pub open spec fn keyed(secure: bool, t: Tree) -> bool {
    forall|q: Seq<int>| is_nibs(q) && (#[trigger] lookup(t, q)) is Some ==> from_key(secure, q)
}

pub proof fn lemma_nibs_inj(a: Seq<int>, b: Seq<int>)
    requires is_bytes(a), is_bytes(b), nibs(a) == nibs(b)
    ensures a == b
{
    assert(nibs(a).len() == 2 * a.len());
    assert(nibs(b).len() == 2 * b.len());
    assert(a.len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        assert(nibs(a)[2 * i] == nibs(b)[2 * i]);
        assert(nibs(a)[2 * i + 1] == nibs(b)[2 * i + 1]);
        assert(nib(a, 2 * i) == a[i] / 16);
        assert(nib(a, 2 * i + 1) == a[i] % 16);
        assert(nib(b, 2 * i) == b[i] / 16);
        assert(nib(b, 2 * i + 1) == b[i] % 16);
        assert(nibs(a)[2 * i] == nib(a, 2 * i) && nibs(a)[2 * i + 1] == nib(a, 2 * i + 1));
        assert(nibs(b)[2 * i] == nib(b, 2 * i) && nibs(b)[2 * i + 1] == nib(b, 2 * i + 1));
    }
    assert(a =~= b);
}
/// different keys have different paths
pub proof fn lemma_keyp_inj(secure: bool, a: Seq<int>, b: Seq<int>)
    requires keyok(secure, a), keyok(secure, b), keyp(secure, a) == keyp(secure, b)
    ensures a == b
{
    broadcast use ax_keccak_len, ax_no_collision;
    lemma_nibs_inj(keyb(secure, a), keyb(secure, b));
}
pub proof fn lemma_keyp(secure: bool, k: Seq<int>)
    requires is_bytes(k)
    ensures is_nibs(keyp(secure, k)), is_bytes(keyb(secure, k))
{
    broadcast use ax_keccak_len;
    lemma_np_nibs(keyb(secure, k), 0);
}

// ---------------------------------------------------------------- references of known trees
pub proof fn lemma_not_emptyh(t: Tree)
    requires known(t)
    ensures tref(t) != emptyh(), tref(t).len() > 0
{
    broadcast use ax_keccak_len, ax_no_collision;
    ax_U_empty();
    ax_rlp_empty_string();
    lemma_known_node(t);
}
pub proof fn lemma_kref(r: Seq<int>)
    ensures kref(r) ==> r != emptyh() && ref_ok(r) && t0(r) == tree_of(r) && !(tree_of(r) is Nil) && r.len() <= 32,
{
    if kref(r) { lemma_not_emptyh(tree_of(r)); lemma_known_node(tree_of(r)); }
}
pub proof fn lemma_krefs()
    ensures forall|r: Seq<int>| #[trigger] kref(r) ==> r != emptyh() && ref_ok(r) && t0(r) == tree_of(r) && !(tree_of(r) is Nil) && r.len() <= 32,
{
    assert forall|r: Seq<int>| #[trigger] kref(r) implies r != emptyh() && ref_ok(r) && t0(r) == tree_of(r) && !(tree_of(r) is Nil) && r.len() <= 32 by { lemma_kref(r); }
}
pub proof fn lemma_emptyh()
    ensures emptyh().len() == 32, is_bytes(emptyh()), U(rlp(Item::S(Seq::<int>::empty()))), forall|r: Seq<int>| r.len() == 0 ==> !#[trigger] dec_ok(r)
{
    broadcast use ax_keccak_len;
    ax_U_empty();
    lemma_not_decodable();
    assert forall|r: Seq<int>| r.len() == 0 implies !#[trigger] dec_ok(r) by { assert(r =~= Seq::<int>::empty()); }
}
/// the empty-trie hash is not a key of a content-addressed storage
pub proof fn lemma_ca_emptyh(s: Map<Seq<int>, Seq<int>>)
    ensures ca(s) ==> !s.dom().contains(emptyh())
{
    broadcast use ax_keccak_len, ax_no_collision;
    ax_U_empty();
    ax_rlp_empty_string();
    if ca(s) && s.dom().contains(emptyh()) { assert(keccak(s[emptyh()]) == emptyh()); }
}

/// what a reference that can be followed leads to, with everything needed to go on below it
pub open spec fn opened(s: Map<Seq<int>, Seq<int>>, r: Seq<int>) -> bool {
        &&& resolv(s, r) && vnode(s, dec(raw_of(s, r))) && tnode(dec(raw_of(s, r))) == tree_of(r)
        &&& dec(raw_of(s, r)) == nodeof(tree_of(r)) && is_bytes(raw_of(s, r)) && raw_of(s, r) == enc(nodeof(tree_of(r)))
        &&& node_ok(dec(raw_of(s, r))) && nref(dec(raw_of(s, r))) == r && enc_ok(dec(raw_of(s, r))) && node_data(dec(raw_of(s, r)))
        &&& kref(r) && r != emptyh() && t0(r) == tree_of(r) && height(tree_of(r)) >= 1 && ref_ok(r)
        &&& match dec(raw_of(s, r)) {
            NodeV::Leaf { p, d } => tree_of(r) == Tree::Leaf(p, d) && d.len() > 0,
            NodeV::Ext { p, r: c } => tree_of(r) == Tree::Ext(p, Box::new(tree_of(c))) && p.len() > 0 && 0 <= height(tree_of(c)) < height(tree_of(r))
                && vref(s, c) && kref(c) && c.len() > 0 && c != emptyh() && t0(c) == tree_of(c) && tree_of(c) is Br,
            NodeV::Branch { b, d } => tree_of(r) == Tree::Br(trees_of(b), d) && b.len() == 16
                && (forall|i: int| 0 <= i < 16 ==> vref(s, #[trigger] b[i]) && b[i] != emptyh() && t0(b[i]) == tree_of(b[i])
                        && 0 <= height(tree_of(b[i])) < height(tree_of(r)) && (b[i].len() > 0) == !(tree_of(b[i]) is Nil)
                        && trees_of(b)[i] == tree_of(b[i]) && (b[i].len() > 0 ==> kref(b[i])))
                && rmany(b, d),
        }
    }
pub proof fn lemma_at(s: Map<Seq<int>, Seq<int>>, r: Seq<int>)
    ensures vref(s, r) && r.len() > 0 ==> opened(s, r)
{
    lemma_open(s, r);
    if vref(s, r) && r.len() > 0 {
        let t = tree_of(r);
        lemma_height(t);
        lemma_known_node(t);
        lemma_not_emptyh(t);
        lemma_krefs();
        lemma_emptyh();
        let n = dec(raw_of(s, r));
        match n {
            NodeV::Ext { p, r: c } => { lemma_height(tree_of(c)); }
            NodeV::Branch { b, d } => {
                lemma_maxh(trees_of(b));
                assert forall|i: int| 0 <= i < 16 implies vref(s, #[trigger] b[i]) && b[i] != emptyh() && t0(b[i]) == tree_of(b[i])
                        && 0 <= height(tree_of(b[i])) < height(tree_of(r)) && (b[i].len() > 0) == !(tree_of(b[i]) is Nil)
                        && trees_of(b)[i] == tree_of(b[i]) && (b[i].len() > 0 ==> kref(b[i])) by {
                    assert(trees_of(b)[i] == tree_of(b[i]));
                    assert(height(trees_of(b)[i]) <= maxh(trees_of(b)));
                }
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- branches under construction
pub open spec fn refs_ok(s: Map<Seq<int>, Seq<int>>, b: Seq<Seq<int>>) -> bool {
    b.len() == 16 && forall|i: int| 0 <= i < b.len() ==> vref(s, #[trigger] b[i])
}
/// replacing a slot of a branch
pub proof fn lemma_slots(b: Seq<Seq<int>>)
    ensures forall|i: int, r: Seq<int>| 0 <= i < b.len() ==> trees_of(#[trigger] b.update(i, r)) == trees_of(b).update(i, tree_of(r))
{
    assert forall|i: int, r: Seq<int>| 0 <= i < b.len() implies trees_of(#[trigger] b.update(i, r)) == trees_of(b).update(i, tree_of(r)) by {
        assert(trees_of(b.update(i, r)) =~= trees_of(b).update(i, tree_of(r)));
    }
}
/// emptiness of slots, at the level of references and of trees
pub proof fn lemma_many(s: Map<Seq<int>, Seq<int>>, b: Seq<Seq<int>>)
    ensures refs_ok(s, b) ==> {
        &&& all_empty(b) == all_nil(trees_of(b))
        &&& forall|i: int| 0 <= i < 16 ==> #[trigger] rsole(b, i) == sole(trees_of(b), i)
        &&& forall|i: int| 0 <= i < 16 && #[trigger] rsole(b, i) ==> has_sole(trees_of(b)) && the_sole(trees_of(b)) == i
        &&& has_sole(trees_of(b)) ==> exists|i: int| 0 <= i < 16 && #[trigger] rsole(b, i)
        &&& forall|d: Seq<int>| #[trigger] rmany(b, d) == many(trees_of(b), d)
    }
{
    if refs_ok(s, b) {
        let cs = trees_of(b);
        lemma_krefs();
        assert forall|i: int| 0 <= i < 16 implies ((#[trigger] b[i]).len() == 0) == (cs[i] is Nil) by { assert(vref(s, b[i])); }
        if all_nil(cs) { assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).len() == 0 by { assert(cs[i] is Nil); } }
        if all_empty(b) { assert forall|i: int| 0 <= i < cs.len() implies (#[trigger] cs[i]) is Nil by { assert(b[i].len() == 0); } }
        assert forall|i: int| 0 <= i < 16 implies #[trigger] rsole(b, i) == sole(cs, i) by {
            if sole(cs, i) { assert forall|j: int| 0 <= j < b.len() && j != i implies (#[trigger] b[j]).len() == 0 by { assert(cs[j] is Nil); } }
            if rsole(b, i) { assert forall|j: int| 0 <= j < cs.len() && j != i implies (#[trigger] cs[j]) is Nil by { assert(b[j].len() == 0); } }
        }
        assert forall|i: int| 0 <= i < 16 && #[trigger] rsole(b, i) implies has_sole(cs) && the_sole(cs) == i by { lemma_sole_unique(cs, i); }
        if has_sole(cs) { let i = the_sole(cs); assert(0 <= i < 16 && sole(cs, i)); assert(rsole(b, i)); }
        assert forall|d: Seq<int>| #[trigger] rmany(b, d) == many(cs, d) by {
            if rmany(b, d) && d.len() == 0 { assert forall|i: int| 0 <= i < cs.len() implies !#[trigger] sole(cs, i) by { assert(!rsole(b, i)); } }
            if many(cs, d) && d.len() == 0 { assert forall|i: int| 0 <= i < b.len() implies !#[trigger] rsole(b, i) by { assert(!sole(cs, i)); } }
        }
    }
}
/// filling a slot of a proper branch, or replacing its value, gives a proper branch
pub proof fn lemma_fill(b: Seq<Seq<int>>, d: Seq<int>)
    ensures rmany(b, d) ==> {
        &&& forall|i: int, r: Seq<int>| 0 <= i < b.len() && r.len() > 0 ==> rmany(#[trigger] b.update(i, r), d)
        &&& forall|d2: Seq<int>| d2.len() > 0 ==> #[trigger] rmany(b, d2)
    }
{
    if rmany(b, d) {
        assert forall|i: int, r: Seq<int>| 0 <= i < b.len() && r.len() > 0 implies rmany(#[trigger] b.update(i, r), d) by {
            let c = b.update(i, r);
            assert(c[i].len() > 0);
            if d.len() == 0 {
                assert forall|j: int| 0 <= j < c.len() implies !#[trigger] rsole(c, j) by {
                    if rsole(c, j) {
                        if j != i { assert(c[i].len() == 0); }
                        assert forall|k: int| 0 <= k < b.len() && k != i implies (#[trigger] b[k]).len() == 0 by { assert(c[k].len() == 0); }
                        if b[i].len() > 0 { assert(rsole(b, i)); }
                        else { assert(all_empty(b)) by { assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]).len() == 0 by { if k != i { assert(c[k].len() == 0); } } } }
                    }
                }
            }
        }
    }
}
/// a branch with two filled slots is proper
pub proof fn lemma_two_slots(b: Seq<Seq<int>>, i: int, j: int)
    ensures 0 <= i < b.len() && 0 <= j < b.len() && i != j && b[i].len() > 0 && b[j].len() > 0 ==> forall|d: Seq<int>| #[trigger] rmany(b, d),
        0 <= i < b.len() && b[i].len() > 0 ==> forall|d: Seq<int>| d.len() > 0 ==> #[trigger] rmany(b, d),
{
    if 0 <= i < b.len() && 0 <= j < b.len() && i != j && b[i].len() > 0 && b[j].len() > 0 {
        assert forall|d: Seq<int>| #[trigger] rmany(b, d) by {
            assert forall|k: int| 0 <= k < b.len() implies !#[trigger] rsole(b, k) by {
                if rsole(b, k) { if k != i { assert(b[i].len() == 0); } else { assert(b[j].len() == 0); } }
            }
        }
    }
}
pub proof fn lemma_blank(b: Seq<Seq<int>>)
    ensures b.len() == 16 && all_empty(b) ==> trees_of(b) == nils() && forall|s: Map<Seq<int>, Seq<int>>| #[trigger] refs_ok(s, b)
{
    if b.len() == 16 && all_empty(b) {
        assert forall|i: int| 0 <= i < 16 implies trees_of(b)[i] == nils()[i] by { assert(b[i].len() == 0); }
        assert(trees_of(b) =~= nils());
    }
}

// ---------------------------------------------------------------- counting the filled slots
pub open spec fn ones(b: Seq<Seq<int>>) -> Seq<int> { Seq::new(b.len(), |i: int| if b[i].len() > 0 { 1int } else { 0int }) }
pub open spec fn cnt(b: Seq<Seq<int>>) -> int { sum_int(ones(b)) }
pub proof fn lemma_cnt(b: Seq<Seq<int>>)
    ensures cnt(b) >= 0, (cnt(b) == 0) == all_empty(b), cnt(b) == 1 ==> exists|i: int| 0 <= i < b.len() && #[trigger] rsole(b, i),
        forall|i: int| 0 <= i < b.len() && #[trigger] rsole(b, i) ==> cnt(b) == 1,
    decreases b.len()
{
    if b.len() > 0 {
        let c = b.drop_last();
        lemma_cnt(c);
        assert(ones(b).drop_last() =~= ones(c));
        let n = b.len() - 1;
        assert(ones(b).last() == if b[n].len() > 0 { 1int } else { 0int });
        if all_empty(b) { assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).len() == 0 by { assert(b[i].len() == 0); } assert(b[n].len() == 0); }
        if cnt(b) == 0 { assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).len() == 0 by { if i < n { assert(c[i].len() == 0); } } }
        if cnt(b) == 1 {
            if b[n].len() > 0 {
                assert(rsole(b, n)) by { assert forall|j: int| 0 <= j < b.len() && j != n implies (#[trigger] b[j]).len() == 0 by { assert(c[j].len() == 0); } }
            } else {
                let i = choose|i: int| 0 <= i < c.len() && #[trigger] rsole(c, i);
                assert(rsole(b, i)) by {
                    assert(c[i].len() > 0);
                    assert forall|j: int| 0 <= j < b.len() && j != i implies (#[trigger] b[j]).len() == 0 by { if j < n { assert(c[j].len() == 0); } }
                }
            }
        }
        assert forall|i: int| 0 <= i < b.len() && #[trigger] rsole(b, i) implies cnt(b) == 1 by {
            if i < n {
                assert(b[n].len() == 0);
                assert(rsole(c, i)) by { assert forall|j: int| 0 <= j < c.len() && j != i implies (#[trigger] c[j]).len() == 0 by { assert(b[j].len() == 0); } }
            } else {
                assert(all_empty(c)) by { assert forall|j: int| 0 <= j < c.len() implies (#[trigger] c[j]).len() == 0 by { assert(b[j].len() == 0); } }
            }
        }
    }
}
/// the same, counted from the left
pub open spec fn cnt_upto(b: Seq<Seq<int>>, n: int) -> int decreases n {
    if n <= 0 { 0 } else { cnt_upto(b, n - 1) + if b[n - 1].len() > 0 { 1int } else { 0int } }
}
pub broadcast proof fn lemma_cnt_upto(b: Seq<Seq<int>>, n: int)
    ensures 0 <= n <= b.len() ==> #[trigger] cnt_upto(b, n) == cnt(b.take(n))
    decreases n
{
    if 0 < n <= b.len() {
        lemma_cnt_upto(b, n - 1);
        assert(ones(b.take(n)).drop_last() =~= ones(b.take(n - 1)));
        assert(ones(b.take(n)).last() == if b[n - 1].len() > 0 { 1int } else { 0int });
    }
}
pub broadcast proof fn lemma_cnt_all(b: Seq<Seq<int>>, n: int)
    ensures n == b.len() ==> #[trigger] cnt_upto(b, n) == cnt(b)
{
    if n == b.len() { lemma_cnt_upto(b, n); assert(b.take(n) =~= b); }
}
pub broadcast proof fn lemma_sum_push(s: Seq<int>, x: int)
    ensures #[trigger] sum_int(s.push(x)) == sum_int(s) + x
{
    assert(s.push(x).drop_last() =~= s);
}
/// what storing a node needs to know about it
pub proof fn lemma_vnode(s: Map<Seq<int>, Seq<int>>, n: NodeV)
    ensures vnode(s, n) ==> node_ok(n) && enc_ok(n) && is_bytes(enc(n)) && node_data(n)
{
    if vnode(s, n) {
        lemma_krefs();
        lemma_enc_items(n);
        lemma_node_item_ok(n);
    }
}
/// branches with known filled slots are proper, and sixteen empty slots stand for no subtrees
pub open spec fn parted(i: int, j: int) -> bool {
    &&& 0 <= i < 16 && 0 <= j < 16 && i != j ==>
            forall|b: Seq<Seq<int>>, d: Seq<int>| b.len() == 16 && b[i].len() > 0 && b[j].len() > 0 ==> #[trigger] rmany(b, d)
    &&& 0 <= i < 16 ==> forall|b: Seq<Seq<int>>, d: Seq<int>| b.len() == 16 && b[i].len() > 0 && d.len() > 0 ==> #[trigger] rmany(b, d)
    &&& 0 <= j < 16 ==> forall|b: Seq<Seq<int>>, d: Seq<int>| b.len() == 16 && b[j].len() > 0 && d.len() > 0 ==> #[trigger] rmany(b, d)
    &&& forall|b: Seq<Seq<int>>| b.len() == 16 && all_empty(b) ==> #[trigger] trees_of(b) == nils()
}
pub proof fn lemma_slots_at(i: int, j: int)
    ensures parted(i, j)
{
    assert forall|b: Seq<Seq<int>>, d: Seq<int>| 0 <= i < 16 && 0 <= j < 16 && i != j && b.len() == 16 && b[i].len() > 0 && b[j].len() > 0 implies #[trigger] rmany(b, d) by {
        lemma_two_slots(b, i, j);
    }
    assert forall|b: Seq<Seq<int>>| b.len() == 16 && all_empty(b) implies #[trigger] trees_of(b) == nils() by { lemma_blank(b); }
}
/// where the paths of an insertion and of the node it meets part
pub proof fn lemma_upd(n: NodeV, p: Seq<int>)
    ensures match n {
        NodeV::Leaf { p: p0, d } => part(p, p0),
        NodeV::Ext { p: p0, r } => part(p, p0) && parted(drop(p, clen(p, p0))[0], drop(p0, clen(p, p0))[0]),
        NodeV::Branch { b, d } => (forall|i: int, r: Seq<int>| 0 <= i < b.len() ==> trees_of(#[trigger] b.update(i, r)) == trees_of(b).update(i, tree_of(r)))
            && (rmany(b, d) ==> (forall|d2: Seq<int>| d2.len() > 0 ==> #[trigger] rmany(b, d2))
                && (forall|i: int, r: Seq<int>| 0 <= i < b.len() && r.len() > 0 ==> rmany(#[trigger] b.update(i, r), d))),
    }
{
    match n {
        NodeV::Leaf { p: p0, d } => { lemma_part(p, p0); }
        NodeV::Ext { p: p0, r } => { lemma_part(p, p0); }
        NodeV::Branch { b, d } => { lemma_fill(b, d); lemma_slots(b); }
    }
}
pub open spec fn part(p: Seq<int>, p0: Seq<int>) -> bool {
    let n = clen(p, p0);
    &&& 0 <= n <= p.len() && n <= p0.len()
    &&& cprefix(p, p0).len() == n
    &&& p != p0 ==> n < p.len() || n < p0.len()
    &&& n == p0.len() ==> is_prefix(p0, p)
    &&& n < p.len() && n < p0.len() ==> p[n] != p0[n] && drop(p, n)[0] != drop(p0, n)[0]
    &&& (p =~= p0) == (p == p0)
}
pub proof fn lemma_part(p: Seq<int>, p0: Seq<int>)
    ensures part(p, p0), parted(drop(p, clen(p, p0))[0], drop(p0, clen(p, p0))[0])
{
    lemma_clen_facts(p, p0);
    lemma_slots_at(drop(p, clen(p, p0))[0], drop(p0, clen(p, p0))[0]);
}
// ---------------------------------------------------------------- deletion
/// how a branch is put into canonical form, by the number of its filled slots
pub open spec fn shrunk(b: Seq<Seq<int>>) -> bool {
    let cs = trees_of(b);
    &&& cnt(b) >= 0
    &&& cnt(b) == 0 ==> forall|d: Seq<int>| #[trigger] norm_br(cs, d) == if d.len() == 0 { Tree::Nil } else { Tree::Leaf(Seq::empty(), d) }
    &&& cnt(b) == 1 ==> (exists|i: int| 0 <= i < 16 && #[trigger] rsole(b, i)) && norm_br(cs, Seq::empty()) == norm_sole(b)
    &&& forall|d: Seq<int>| cnt(b) > 1 || (cnt(b) == 1 && d.len() > 0) ==> #[trigger] rmany(b, d)
    &&& forall|d: Seq<int>| cnt(b) > 1 || (cnt(b) == 1 && d.len() > 0) ==> #[trigger] norm_br(cs, d) == Tree::Br(cs, d)
    &&& forall|v: Seq<int>| v =~= ones(b) ==> #[trigger] sum_int(v) == cnt(b)
}
/// the only subtree, one nibble further up
pub open spec fn norm_sole(b: Seq<Seq<int>>) -> Tree {
    norm_ext(seq![the_sole(trees_of(b))], trees_of(b)[the_sole(trees_of(b))])
}
pub proof fn lemma_shrunk(s: Map<Seq<int>, Seq<int>>, b: Seq<Seq<int>>)
    ensures refs_ok(s, b) ==> shrunk(b)
{
    if refs_ok(s, b) {
        let cs = trees_of(b);
        lemma_many(s, b);
        lemma_cnt(b);
        assert forall|d: Seq<int>| cnt(b) > 1 || (cnt(b) == 1 && d.len() > 0) implies #[trigger] rmany(b, d) by {}
        assert forall|d: Seq<int>| cnt(b) > 1 || (cnt(b) == 1 && d.len() > 0) implies #[trigger] norm_br(cs, d) == Tree::Br(cs, d) by {
            if d.len() == 0 && has_sole(cs) { }
        }
        assert forall|v: Seq<int>| v =~= ones(b) implies #[trigger] sum_int(v) == cnt(b) by {}
    }
}
/// what deleting below slot i, or the value, of a branch leads to
pub open spec fn del_facts(s: Map<Seq<int>, Seq<int>>, b: Seq<Seq<int>>, d: Seq<int>, i: int) -> bool {
    let b2 = b.update(i, Seq::empty());
    let cs = trees_of(b);
    &&& shrunk(b)
    &&& 0 <= i < 16 ==> {
        &&& shrunk(b2) && refs_ok(s, b2) && trees_of(b2) == cs.update(i, Tree::Nil)
        &&& forall|r: Seq<int>| trees_of(#[trigger] b2.update(i, r)) == cs.update(i, tree_of(r))
        &&& forall|r: Seq<int>| r.len() > 0 ==> rmany(#[trigger] b2.update(i, r), d)
        &&& forall|t: Tree| !(t is Nil) ==> #[trigger] norm_br(cs.update(i, t), d) == Tree::Br(cs.update(i, t), d)
    }
}
pub proof fn lemma_del_facts(s: Map<Seq<int>, Seq<int>>, b: Seq<Seq<int>>, d: Seq<int>, i: int)
    ensures refs_ok(s, b) && rmany(b, d) ==> del_facts(s, b, d, i)
{
    if refs_ok(s, b) && rmany(b, d) {
        lemma_shrunk(s, b);
        if 0 <= i < 16 {
            let b2 = b.update(i, Seq::empty());
            let cs = trees_of(b);
            assert(refs_ok(s, b2)) by {
                assert forall|k: int| 0 <= k < b2.len() implies vref(s, #[trigger] b2[k]) by { if k != i { assert(vref(s, b[k])); } }
            }
            lemma_shrunk(s, b2);
            lemma_slots(b);
            lemma_many(s, b);
            lemma_fill(b, d);
            assert(trees_of(b2) =~= cs.update(i, Tree::Nil));
            assert forall|r: Seq<int>| trees_of(#[trigger] b2.update(i, r)) == cs.update(i, tree_of(r)) by { assert(b2.update(i, r) =~= b.update(i, r)); }
            assert forall|r: Seq<int>| r.len() > 0 implies rmany(#[trigger] b2.update(i, r), d) by { assert(b2.update(i, r) =~= b.update(i, r)); }
            assert forall|t: Tree| !(t is Nil) implies #[trigger] norm_br(cs.update(i, t), d) == Tree::Br(cs.update(i, t), d) by {
                lemma_many_fill(cs, d, i, t);
            }
        }
    }
}
pub proof fn lemma_many_fill(cs: Seq<Tree>, d: Seq<int>, i: int, t: Tree)
    requires many(cs, d), 0 <= i < cs.len(), !(t is Nil)
    ensures many(cs.update(i, t), d)
{
    let c = cs.update(i, t);
    assert(!(c[i] is Nil));
    if d.len() == 0 {
        assert forall|j: int| 0 <= j < c.len() implies !#[trigger] sole(c, j) by {
            if sole(c, j) {
                if j != i { assert(c[i] is Nil); }
                assert forall|k: int| 0 <= k < cs.len() && k != i implies (#[trigger] cs[k]) is Nil by { assert(c[k] is Nil); }
                if cs[i] is Nil { assert(all_nil(cs)) by { assert forall|k: int| 0 <= k < cs.len() implies (#[trigger] cs[k]) is Nil by { if k != i { assert(c[k] is Nil); } } } }
                else { assert(sole(cs, i)); }
            }
        }
    }
}
/// the node met by a deletion
pub proof fn lemma_del_at(s: Map<Seq<int>, Seq<int>>, n: NodeV, p: Seq<int>)
    ensures np(Seq::empty(), 0) == Seq::<int>::empty(), vnode(s, n) ==> match n {
        NodeV::Branch { b, d } => del_facts(s, b, d, if p.len() > 0 { p[0] } else { -1 }),
        _ => true,
    }
{
    assert(np(Seq::empty(), 0) =~= Seq::<int>::empty());
    match n { NodeV::Branch { b, d } => { lemma_del_facts(s, b, d, if p.len() > 0 { p[0] } else { -1 }); } _ => {} }
}
/// the only filled slot of a branch
pub proof fn lemma_sole_at(s: Map<Seq<int>, Seq<int>>, b: Seq<Seq<int>>)
    ensures refs_ok(s, b) && (exists|i: int| 0 <= i < b.len() && #[trigger] rsole(b, i)) ==>
        forall|i: int| 0 <= i < b.len() && (#[trigger] b[i]).len() > 0 ==> i == the_sole(trees_of(b)) && trees_of(b)[i] == tree_of(b[i]) && opened(s, b[i])
            && np(seq![i], 1) == seq![i] && is_bytes(seq![i])
{
    if refs_ok(s, b) && (exists|i: int| 0 <= i < b.len() && #[trigger] rsole(b, i)) {
        lemma_many(s, b);
        let j = choose|i: int| 0 <= i < b.len() && #[trigger] rsole(b, i);
        assert forall|i: int| 0 <= i < b.len() && (#[trigger] b[i]).len() > 0 implies i == the_sole(trees_of(b)) && trees_of(b)[i] == tree_of(b[i]) && opened(s, b[i])
            && np(seq![i], 1) == seq![i] && is_bytes(seq![i]) by {
            if i != j { assert(b[i].len() == 0); }
            lemma_at(s, b[i]);
            assert(np(seq![i], 1) =~= seq![i]);
        }
    }
}
// ---------------------------------------------------------------- the trie as a map
/// one history: storage, root and mode of a trie object
pub open spec fn state(s: Map<Seq<int>, Seq<int>>, r: Option<Seq<int>>, secure: bool) -> bool {
    ca(s) && tok(s, r) && keyed(secure, troot(r))
}
/// roots that could be followed can still be followed
pub open spec fn older(s: Map<Seq<int>, Seq<int>>, s2: Map<Seq<int>, Seq<int>>) -> bool {
    forall|r: Option<Seq<int>>| #[trigger] tok(s, r) ==> tok(s2, r)
}
pub proof fn lemma_older(s: Map<Seq<int>, Seq<int>>, s2: Map<Seq<int>, Seq<int>>)
    ensures ext(s, s2) ==> older(s, s2)
{
    if ext(s, s2) {
        assert forall|r: Option<Seq<int>>| #[trigger] tok(s, r) implies tok(s2, r) by {
            match r { None => {}, Some(b) => { if vref(s, b) { lemma_vref_ext(s, s2, b); } } }
        }
    }
}
pub open spec fn put(c: Option<Seq<int>>, k: Seq<int>, k2: Seq<int>, v: Option<Seq<int>>) -> Option<Seq<int>> { if k2 == k { v } else { c } }
/// the content after storing v under k (v None: after deleting k)
pub open spec fn changed(secure: bool, r: Option<Seq<int>>, r2: Option<Seq<int>>, k: Seq<int>, v: Option<Seq<int>>) -> bool {
    forall|k2: Seq<int>| keyok(secure, k2) ==> #[trigger] content(secure, r2, k2) == put(content(secure, r, k2), k, k2, v)
}
pub proof fn lemma_troot_ok(s: Map<Seq<int>, Seq<int>>, r: Option<Seq<int>>)
    ensures tok(s, r) ==> okt(troot(r))
{
    match r { None => {}, Some(b) => { lemma_kref(b); } }
}
pub proof fn lemma_map_ins(s: Map<Seq<int>, Seq<int>>, secure: bool, r: Option<Seq<int>>, k: Seq<int>, v: Seq<int>)
    ensures state(s, r, secure) && keyok(secure, k) && v.len() > 0 ==> ({
        let t2 = ins(troot(r), keyp(secure, k), v);
        &&& keyed(secure, t2)
        &&& forall|k2: Seq<int>| keyok(secure, k2) ==> lookup(t2, #[trigger] keyp(secure, k2)) == put(content(secure, r, k2), k, k2, Some(v)) })
{
    if state(s, r, secure) && keyok(secure, k) && v.len() > 0 {
        let t = troot(r);
        let t2 = ins(t, keyp(secure, k), v);
        lemma_troot_ok(s, r);
        lemma_keyp(secure, k);
        assert forall|q: Seq<int>| is_nibs(q) && (#[trigger] lookup(t2, q)) is Some implies from_key(secure, q) by {
            lemma_ins(t, keyp(secure, k), v, q);
            if q != keyp(secure, k) { assert(lookup(t, q) is Some); }
        }
        assert forall|k2: Seq<int>| keyok(secure, k2) implies lookup(t2, #[trigger] keyp(secure, k2)) == put(content(secure, r, k2), k, k2, Some(v)) by {
            lemma_keyp(secure, k2);
            lemma_ins(t, keyp(secure, k), v, keyp(secure, k2));
            if k2 != k && keyp(secure, k2) == keyp(secure, k) { lemma_keyp_inj(secure, k, k2); }
        }
    }
}
pub proof fn lemma_map_del(s: Map<Seq<int>, Seq<int>>, secure: bool, r: Option<Seq<int>>, k: Seq<int>)
    ensures state(s, r, secure) && keyok(secure, k) ==> ({
        let t2 = del(troot(r), keyp(secure, k));
        &&& keyed(secure, t2)
        &&& forall|k2: Seq<int>| keyok(secure, k2) ==> lookup(t2, #[trigger] keyp(secure, k2)) == put(content(secure, r, k2), k, k2, None) })
{
    if state(s, r, secure) && keyok(secure, k) {
        let t = troot(r);
        let t2 = del(t, keyp(secure, k));
        lemma_troot_ok(s, r);
        lemma_keyp(secure, k);
        assert forall|q: Seq<int>| is_nibs(q) && (#[trigger] lookup(t2, q)) is Some implies from_key(secure, q) by {
            lemma_del(t, keyp(secure, k), q);
            assert(lookup(t, q) is Some);
        }
        assert forall|k2: Seq<int>| keyok(secure, k2) implies lookup(t2, #[trigger] keyp(secure, k2)) == put(content(secure, r, k2), k, k2, None) by {
            lemma_keyp(secure, k2);
            lemma_del(t, keyp(secure, k), keyp(secure, k2));
            if k2 != k && keyp(secure, k2) == keyp(secure, k) { lemma_keyp_inj(secure, k, k2); }
        }
    }
}

// ---------------------------------------------------------------- the root hash
pub open spec fn rhash(r: Option<Seq<int>>) -> Seq<int> {
    match r {
        None => emptyh(),
        Some(b) => if b.len() == 0 { emptyh() } else if b.len() == 32 { b } else { keccak(b) },
    }
}
/// the root has been hashed in the history under consideration
pub open spec fn hashed(r: Option<Seq<int>>) -> bool { match r { None => true, Some(b) => 0 < b.len() && b.len() != 32 ==> U(b) } }
pub open spec fn same_content(secure: bool, r: Option<Seq<int>>, r2: Option<Seq<int>>) -> bool {
    forall|k: Seq<int>| keyok(secure, k) ==> #[trigger] content(secure, r, k) == content(secure, r2, k)
}
/// the root hash is the hash of the encoding of the root node
pub proof fn lemma_rhash(s: Map<Seq<int>, Seq<int>>, r: Option<Seq<int>>)
    ensures tok(s, r) && hashed(r) ==> rhash(r) == (if troot(r) is Nil { emptyh() } else { keccak(enc(nodeof(troot(r)))) })
            && (troot(r) is Nil || U(enc(nodeof(troot(r)))) && known(troot(r))) && rhash(r).len() == 32 && is_bytes(rhash(r)),
{
    broadcast use ax_keccak_len;
    if tok(s, r) && hashed(r) {
        match r {
            None => {}
            Some(b) => {
                if b.len() == 0 || b == emptyh() {
                } else {
                    lemma_kref(b);
                    let t = tree_of(b);
                    assert(b == nref(nodeof(t)));
                    lemma_known_node(t);
                }
            }
        }
    }
}
/// equal root hashes mean equal content, and conversely
pub proof fn lemma_fingerprint(s: Map<Seq<int>, Seq<int>>, r: Option<Seq<int>>, s2: Map<Seq<int>, Seq<int>>, r2: Option<Seq<int>>, secure: bool)
    ensures state(s, r, secure) && state(s2, r2, secure) && hashed(r) && hashed(r2) ==> (rhash(r) == rhash(r2)) == same_content(secure, r, r2)
{
    broadcast use ax_keccak_len, ax_no_collision;
    if state(s, r, secure) && state(s2, r2, secure) && hashed(r) && hashed(r2) {
        let t = troot(r);
        let t2 = troot(r2);
        lemma_rhash(s, r);
        lemma_rhash(s2, r2);
        lemma_troot_ok(s, r);
        lemma_troot_ok(s2, r2);
        ax_U_empty();
        ax_rlp_empty_string();
        if !(t is Nil) { lemma_known_node(t); lemma_rlp_nonempty(t); }
        if !(t2 is Nil) { lemma_known_node(t2); lemma_rlp_nonempty(t2); }
        if rhash(r) == rhash(r2) {
            if t is Nil || t2 is Nil {
                assert(t is Nil && t2 is Nil);
            } else {
                assert(enc(nodeof(t)) == enc(nodeof(t2)));
                assert(nodeof(t) == nodeof(t2));
                lemma_tree_unique(t, t2);
            }
            assert(t == t2);
        }
        if same_content(secure, r, r2) {
            assert forall|q: Seq<int>| is_nibs(q) implies #[trigger] lookup(t, q) == lookup(t2, q) by {
                if lookup(t, q) is Some || lookup(t2, q) is Some {
                    assert(from_key(secure, q));
                    let k = choose|k: Seq<int>| #[trigger] keyok(secure, k) && keyp(secure, k) == q;
                    assert(content(secure, r, k) == content(secure, r2, k));
                }
            }
            lemma_canonical(t, t2);
        }
    }
}
/// the encoding of a node is not the encoding of the empty string
pub proof fn lemma_rlp_nonempty(t: Tree)
    requires known(t)
    ensures enc(nodeof(t)) != rlp(Item::S(Seq::<int>::empty())), dec_ok(enc(nodeof(t))) && dec(enc(nodeof(t))) == nodeof(t)
{
    broadcast use ax_rlp_roundtrip;
    lemma_known_node(t);
    lemma_dec_enc(nodeof(t));
    assert(item_ok(Item::S(Seq::<int>::empty())));
}
/// the number of a hash determines the hash
pub proof fn lemma_hash_number(a: Seq<int>, b: Seq<int>)
    requires U(a), U(b)
    ensures (hex_value(hexs(keccak(a))) == hex_value(hexs(keccak(b)))) == (a == b)
{
    broadcast use ax_keccak_len, ax_no_collision, ax_hex_value;
    if hex_value(hexs(keccak(a))) == hex_value(hexs(keccak(b))) { lemma_beval_inj(keccak(a), keccak(b)); }
}
/// the empty string is not the encoding of anything
pub proof fn lemma_not_decodable()
    ensures !dec_ok(Seq::empty())
{
    broadcast use ax_rlp_roundtrip, ax_unrlp;
    if rlp_ok(Seq::<int>::empty()) {
        assert(is_bytes(Seq::<int>::empty()));
        assert(rlp(unrlp(Seq::<int>::empty())).len() >= 1);
    }
}
} // verus!
