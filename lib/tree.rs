//! Merkle Patricia tries: the tree a reference stands for, its content, insertion and deletion.
#![allow(unused_imports)]
use vstd::prelude::*;
use crate::base::*;
use crate::nib::*;
use crate::codec::*;
verus! {

pub enum Tree { Nil, Leaf(Seq<int>, Seq<int>), Ext(Seq<int>, Box<Tree>), Br(Seq<Tree>, Seq<int>) }

pub open spec fn tref(t: Tree) -> Seq<int> decreases t, 1int {
    match t { Tree::Nil => Seq::empty(), _ => nref(nodeof(t)) }
}
pub open spec fn nodeof(t: Tree) -> NodeV decreases t, 0int {
    match t {
        Tree::Nil => NodeV::Leaf { p: Seq::empty(), d: Seq::empty() },
        Tree::Leaf(p, d) => NodeV::Leaf { p, d },
        Tree::Ext(p, c) => NodeV::Ext { p, r: tref(*c) },
        Tree::Br(cs, d) => NodeV::Branch { b: Seq::new(cs.len(), |i: int| if 0 <= i < cs.len() { tref(cs[i]) } else { Seq::empty() }), d },
    }
}
pub open spec fn trefs(cs: Seq<Tree>) -> Seq<Seq<int>> { Seq::new(cs.len(), |i: int| tref(cs[i])) }
pub open spec fn height(t: Tree) -> int decreases t {
    match t {
        Tree::Nil => 0,
        Tree::Leaf(p, d) => 1,
        Tree::Ext(p, c) => 1 + height(*c),
        Tree::Br(cs, d) => 1 + maxh(cs),
    }
}
pub open spec fn maxh(cs: Seq<Tree>) -> int decreases cs {
    if cs.len() == 0 { 0 } else { max2(height(cs.last()), maxh(cs.drop_last())) }
}
/// the tree is in canonical form, its bytes are bytes, and its encodings belong to the history
pub open spec fn known(t: Tree) -> bool decreases t {
    (enc(nodeof(t)).len() >= 32 ==> U(enc(nodeof(t)))) && match t {
        Tree::Nil => false,
        Tree::Leaf(p, d) => is_nibs(p) && is_bytes(d) && d.len() > 0,
        Tree::Ext(p, c) => is_nibs(p) && p.len() > 0 && (*c) is Br && known(*c),
        Tree::Br(cs, d) => is_bytes(d) && cs.len() == 16
            && (forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]) is Nil || known(cs[i]))
            && many(cs, d),
    }
}
/// a branch has at least two entries
pub open spec fn many(cs: Seq<Tree>, d: Seq<int>) -> bool {
    &&& !all_nil(cs)
    &&& d.len() == 0 ==> forall|i: int| 0 <= i < cs.len() ==> !#[trigger] sole(cs, i)
}
pub open spec fn all_nil(cs: Seq<Tree>) -> bool { forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]) is Nil }
pub open spec fn sole(cs: Seq<Tree>, i: int) -> bool {
    !(cs[i] is Nil) && forall|j: int| 0 <= j < cs.len() && j != i ==> (#[trigger] cs[j]) is Nil
}
pub open spec fn okt(t: Tree) -> bool { t is Nil || known(t) }

/// the storage holds every hashed node of the tree
pub open spec fn rep(s: Map<Seq<int>, Seq<int>>, t: Tree) -> bool decreases t {
    match t {
        Tree::Nil => true,
        _ => {
            &&& enc(nodeof(t)).len() >= 32 ==> s.dom().contains(tref(t)) && s[tref(t)] == enc(nodeof(t))
            &&& match t {
                Tree::Ext(p, c) => rep(s, *c),
                Tree::Br(cs, d) => forall|i: int| 0 <= i < cs.len() ==> rep(s, #[trigger] cs[i]),
                _ => true,
            }
        }
    }
}
/// content-addressed storage
pub open spec fn ca(s: Map<Seq<int>, Seq<int>>) -> bool {
    forall|k: Seq<int>| #[trigger] s.dom().contains(k) ==> k == keccak(s[k]) && U(s[k]) && s[k].len() >= 32 && is_bytes(s[k])
}
pub open spec fn ext(s: Map<Seq<int>, Seq<int>>, s2: Map<Seq<int>, Seq<int>>) -> bool {
    forall|k: Seq<int>| #[trigger] s.dom().contains(k) ==> s2.dom().contains(k) && s2[k] == s[k]
}

/// the tree behind a reference
pub open spec fn tree_of(r: Seq<int>) -> Tree {
    if r.len() == 0 { Tree::Nil } else { choose|t: Tree| known(t) && tref(t) == r }
}
pub open spec fn kref(r: Seq<int>) -> bool { r.len() > 0 && known(tree_of(r)) && tref(tree_of(r)) == r }
/// a reference that can be followed in the storage
pub open spec fn vref(s: Map<Seq<int>, Seq<int>>, r: Seq<int>) -> bool {
    r.len() == 0 || (kref(r) && rep(s, tree_of(r)))
}
/// the tree whose root is the given node
pub open spec fn tnode(n: NodeV) -> Tree {
    match n {
        NodeV::Leaf { p, d } => Tree::Leaf(p, d),
        NodeV::Ext { p, r } => Tree::Ext(p, Box::new(tree_of(r))),
        NodeV::Branch { b, d } => Tree::Br(trees_of(b), d),
    }
}
pub open spec fn trees_of(b: Seq<Seq<int>>) -> Seq<Tree> { Seq::new(b.len(), |i: int| tree_of(b[i])) }
/// a canonical node all of whose references can be followed
pub open spec fn vnode(s: Map<Seq<int>, Seq<int>>, n: NodeV) -> bool {
    match n {
        NodeV::Leaf { p, d } => is_nibs(p) && is_bytes(d) && d.len() > 0,
        NodeV::Ext { p, r } => is_nibs(p) && p.len() > 0 && vref(s, r) && tree_of(r) is Br,
        NodeV::Branch { b, d } => is_bytes(d) && b.len() == 16
            && (forall|i: int| 0 <= i < b.len() ==> vref(s, #[trigger] b[i])) && rmany(b, d),
    }
}
pub open spec fn rmany(b: Seq<Seq<int>>, d: Seq<int>) -> bool {
    &&& !all_empty(b)
    &&& d.len() == 0 ==> forall|i: int| 0 <= i < b.len() ==> !#[trigger] rsole(b, i)
}
pub open spec fn all_empty(b: Seq<Seq<int>>) -> bool { forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).len() == 0 }
pub open spec fn rsole(b: Seq<Seq<int>>, i: int) -> bool {
    b[i].len() > 0 && forall|j: int| 0 <= j < b.len() && j != i ==> (#[trigger] b[j]).len() == 0
}

// ---------------------------------------------------------------- basic lemmas
pub proof fn lemma_maxh(cs: Seq<Tree>)
    ensures maxh(cs) >= 0, forall|i: int| 0 <= i < cs.len() ==> 0 <= height(#[trigger] cs[i]) <= maxh(cs)
    decreases cs
{
    if cs.len() > 0 {
        lemma_maxh(cs.drop_last());
        lemma_height(cs.last());
        assert forall|i: int| 0 <= i < cs.len() implies 0 <= height(#[trigger] cs[i]) <= maxh(cs) by {
            if i < cs.len() - 1 { assert(cs[i] == cs.drop_last()[i]); }
        }
    }
}
pub proof fn lemma_height(t: Tree)
    ensures height(t) >= 0, !(t is Nil) ==> height(t) >= 1
    decreases t
{
    match t {
        Tree::Ext(p, c) => { lemma_height(*c); }
        Tree::Br(cs, d) => { lemma_maxh(cs); }
        _ => {}
    }
}
pub proof fn lemma_nodeof_br(cs: Seq<Tree>, d: Seq<int>)
    ensures nodeof(Tree::Br(cs, d)) == (NodeV::Branch { b: trefs(cs), d })
{
    assert((nodeof(Tree::Br(cs, d))->b) =~= trefs(cs));
}
/// the node of a known tree is proper
pub proof fn lemma_known_node(t: Tree)
    requires known(t)
    ensures node_ok(nodeof(t)), enc_ok(nodeof(t)), node_data(nodeof(t)), ref_ok(tref(t)), 0 < tref(t).len() <= 32, is_bytes(enc(nodeof(t))),
        dec_ok(enc(nodeof(t))), dec(enc(nodeof(t))) == nodeof(t),
    decreases t
{
    match t {
        Tree::Ext(p, c) => { lemma_known_node(*c); }
        Tree::Br(cs, d) => {
            lemma_nodeof_br(cs, d);
            let b = trefs(cs);
            assert forall|i: int| 0 <= i < b.len() implies ref_ok(#[trigger] b[i]) by {
                assert(b[i] == tref(cs[i]));
                if !(cs[i] is Nil) { lemma_known_node(cs[i]); }
            }
        }
        _ => {}
    }
    lemma_dec_enc(nodeof(t));
    lemma_nref(nodeof(t));
    lemma_node_item_ok(nodeof(t));
}
/// equal references stand for equal trees
pub proof fn lemma_tree_unique(t: Tree, t2: Tree)
    requires okt(t), okt(t2), tref(t) == tref(t2)
    ensures t == t2
    decreases t
{
    if !(t is Nil) { lemma_known_node(t); }
    if !(t2 is Nil) { lemma_known_node(t2); }
    if !(t is Nil) && !(t2 is Nil) {
        lemma_nref_inj(nodeof(t), nodeof(t2));
        match t {
            Tree::Leaf(p, d) => { match t2 { Tree::Br(cs2, d2) => {} _ => {} } }
            Tree::Ext(p, c) => {
                match t2 { Tree::Ext(p2, c2) => { lemma_tree_unique(*c, *c2); } _ => {} }
            }
            Tree::Br(cs, d) => {
                lemma_nodeof_br(cs, d);
                match t2 {
                    Tree::Br(cs2, d2) => {
                        lemma_nodeof_br(cs2, d2);
                        assert forall|i: int| 0 <= i < cs.len() implies cs[i] == cs2[i] by {
                            assert(trefs(cs)[i] == trefs(cs2)[i]);
                            lemma_tree_unique(cs[i], cs2[i]);
                        }
                        assert(cs =~= cs2);
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
}
pub proof fn lemma_tree_of(t: Tree)
    requires okt(t)
    ensures tree_of(tref(t)) == t, known(t) ==> kref(tref(t))
{
    if !(t is Nil) {
        lemma_known_node(t);
        let r = tref(t);
        let t2 = choose|t: Tree| known(t) && tref(t) == r;
        assert(known(t) && tref(t) == r);
        lemma_tree_unique(t2, t);
    }
}
pub proof fn lemma_rep_ext(s: Map<Seq<int>, Seq<int>>, s2: Map<Seq<int>, Seq<int>>, t: Tree)
    requires rep(s, t), ext(s, s2)
    ensures rep(s2, t)
    decreases t
{
    match t {
        Tree::Ext(p, c) => { lemma_rep_ext(s, s2, *c); }
        Tree::Br(cs, d) => {
            assert forall|i: int| 0 <= i < cs.len() implies rep(s2, #[trigger] cs[i]) by { lemma_rep_ext(s, s2, cs[i]); }
        }
        _ => {}
    }
}
pub broadcast proof fn lemma_vref_ext(s: Map<Seq<int>, Seq<int>>, s2: Map<Seq<int>, Seq<int>>, r: Seq<int>)
    requires #[trigger] vref(s, r), #[trigger] ext(s, s2)
    ensures vref(s2, r)
{
    if r.len() > 0 { lemma_rep_ext(s, s2, tree_of(r)); }
}
pub broadcast proof fn lemma_ext_trans(s: Map<Seq<int>, Seq<int>>, s2: Map<Seq<int>, Seq<int>>, s3: Map<Seq<int>, Seq<int>>)
    requires #[trigger] ext(s, s2), #[trigger] ext(s2, s3)
    ensures ext(s, s3)
{}
pub proof fn lemma_ext_refl(s: Map<Seq<int>, Seq<int>>)
    ensures ext(s, s)
{}
/// resolving a reference
pub open spec fn raw_of(s: Map<Seq<int>, Seq<int>>, r: Seq<int>) -> Seq<int> { if r.len() == 32 { s[r] } else { r } }
pub open spec fn resolv(s: Map<Seq<int>, Seq<int>>, r: Seq<int>) -> bool {
    (r.len() == 32 ==> s.dom().contains(r)) && dec_ok(raw_of(s, r))
}
pub proof fn lemma_tnode_of(t: Tree)
    requires known(t)
    ensures tnode(nodeof(t)) == t
{
    match t {
        Tree::Ext(p, c) => { lemma_tree_of(*c); }
        Tree::Br(cs, d) => {
            lemma_nodeof_br(cs, d);
            assert(trees_of(trefs(cs)) =~= cs) by {
                assert forall|i: int| 0 <= i < cs.len() implies #[trigger] trees_of(trefs(cs))[i] == cs[i] by { lemma_tree_of(cs[i]); }
            }
        }
        _ => {}
    }
}
/// following a reference gives the root node of its tree
pub proof fn lemma_open(s: Map<Seq<int>, Seq<int>>, r: Seq<int>)
    ensures vref(s, r) && r.len() > 0 ==> resolv(s, r) && tnode(dec(raw_of(s, r))) == tree_of(r) && vnode(s, dec(raw_of(s, r)))
        && dec(raw_of(s, r)) == nodeof(tree_of(r)) && is_bytes(raw_of(s, r)) && raw_of(s, r) == enc(nodeof(tree_of(r)))
        && enc(nodeof(tree_of(r))) == enc(dec(raw_of(s, r)))
{
    if vref(s, r) && r.len() > 0 {
        let t = tree_of(r);
        lemma_known_node(t);
        lemma_tnode_of(t);
        lemma_kids(s, t);
        broadcast use ax_keccak_len;
        assert(raw_of(s, r) == enc(nodeof(t)));
    }
}
pub proof fn lemma_kids(s: Map<Seq<int>, Seq<int>>, t: Tree)
    requires known(t), rep(s, t)
    ensures vnode(s, nodeof(t))
{
    match t {
        Tree::Ext(p, c) => { lemma_tree_of(*c); }
        Tree::Br(cs, d) => {
            lemma_nodeof_br(cs, d);
            let b = trefs(cs);
            assert forall|i: int| 0 <= i < b.len() implies vref(s, #[trigger] b[i]) && (b[i].len() == 0) == (cs[i] is Nil) by {
                assert(b[i] == tref(cs[i]));
                lemma_tree_of(cs[i]);
                if !(cs[i] is Nil) { lemma_known_node(cs[i]); }
            }
            assert(rmany(b, d)) by {
                if all_empty(b) { assert forall|i: int| 0 <= i < cs.len() implies (#[trigger] cs[i]) is Nil by { assert(b[i].len() == 0); } }
                if d.len() == 0 {
                    assert forall|i: int| 0 <= i < b.len() implies !#[trigger] rsole(b, i) by {
                        if rsole(b, i) {
                            assert(b[i].len() > 0);
                            assert forall|j: int| 0 <= j < cs.len() && j != i implies (#[trigger] cs[j]) is Nil by { assert(b[j].len() == 0); }
                            assert(sole(cs, i));
                        }
                    }
                }
            }
        }
        _ => {}
    }
}
/// a canonical node whose encoding belongs to the history is the root of a known tree
pub proof fn lemma_close(s: Map<Seq<int>, Seq<int>>, n: NodeV)
    requires vnode(s, n), enc(n).len() >= 32 ==> U(enc(n))
    ensures known(tnode(n)), nodeof(tnode(n)) == n, tref(tnode(n)) == nref(n), tree_of(nref(n)) == tnode(n), kref(nref(n)), node_ok(n), enc_ok(n)
{
    let t = tnode(n);
    match n {
        NodeV::Ext { p, r } => {}
        NodeV::Branch { b, d } => {
            let cs = trees_of(b);
            lemma_nodeof_br(cs, d);
            assert forall|i: int| 0 <= i < cs.len() implies ((#[trigger] cs[i]) is Nil || known(cs[i])) && tref(cs[i]) == b[i] && (b[i].len() == 0) == (cs[i] is Nil) by {
                assert(vref(s, b[i]));
                assert(cs[i] == tree_of(b[i]));
            }
            assert(trefs(cs) =~= b);
            assert(many(cs, d)) by {
                if all_nil(cs) { assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).len() == 0 by { assert(cs[i] is Nil); } }
                if d.len() == 0 {
                    assert forall|i: int| 0 <= i < cs.len() implies !#[trigger] sole(cs, i) by {
                        if sole(cs, i) {
                            assert(b[i].len() > 0);
                            assert forall|j: int| 0 <= j < b.len() && j != i implies (#[trigger] b[j]).len() == 0 by { assert(cs[j] is Nil); }
                            assert(rsole(b, i));
                        }
                    }
                }
            }
        }
        _ => {}
    }
    assert(known(t));
    lemma_known_node(t);
    lemma_tree_of(t);
}
pub open spec fn stored(s: Map<Seq<int>, Seq<int>>, n: NodeV) -> Map<Seq<int>, Seq<int>> {
    if enc(n).len() < 32 { s } else { s.insert(nref(n), enc(n)) }
}
/// storing a node
pub proof fn lemma_store(s: Map<Seq<int>, Seq<int>>, n: NodeV)
    requires ca(s), vnode(s, n), enc(n).len() >= 32 ==> U(enc(n))
    ensures ca(stored(s, n)), ext(s, stored(s, n)), vref(stored(s, n), nref(n)), tree_of(nref(n)) == tnode(n), nref(n).len() > 0
{
    broadcast use ax_no_collision, ax_keccak_len;
    lemma_close(s, n);
    let s2 = stored(s, n);
    lemma_node_item_ok(n);
    assert(ext(s, s2)) by {
        assert forall|k: Seq<int>| #[trigger] s.dom().contains(k) implies s2.dom().contains(k) && s2[k] == s[k] by {
            if enc(n).len() >= 32 && k == nref(n) { assert(keccak(s[k]) == keccak(enc(n))); }
        }
    }
    match n {
        NodeV::Ext { p, r } => { lemma_vref_ext(s, s2, r); }
        NodeV::Branch { b, d } => {
            let cs = trees_of(b);
            assert forall|i: int| 0 <= i < cs.len() implies rep(s2, #[trigger] cs[i]) by {
                assert(vref(s, b[i])); lemma_vref_ext(s, s2, b[i]); assert(cs[i] == tree_of(b[i]));
            }
        }
        _ => {}
    }
    assert(rep(s2, tnode(n)));
    lemma_known_node(tnode(n));
}
} // verus!
