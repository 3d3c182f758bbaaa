//! Proofs of inclusion and exclusion: the nodes on the way to a key.
#![allow(unused_imports)]
use vstd::prelude::*;
use crate::base::*;
use crate::nib::*;
use crate::codec::*;
use crate::tree::*;
use crate::trie::*;
use crate::mpt::*;
verus! {

/// does the way to q go on below the root of t?
pub open spec fn goes_on(t: Tree, q: Seq<int>) -> bool {
    q.len() > 0 && match t {
        Tree::Ext(p, c) => is_prefix(p, q),
        Tree::Br(cs, d) => 0 <= q[0] < cs.len() && !(cs[q[0]] is Nil),
        _ => false,
    }
}
pub open spec fn next_tree(t: Tree, q: Seq<int>) -> Tree {
    match t { Tree::Ext(p, c) => *c, Tree::Br(cs, d) => cs[q[0]], _ => t }
}
pub open spec fn next_path(t: Tree, q: Seq<int>) -> Seq<int> {
    match t { Tree::Ext(p, c) => drop(q, p.len() as int), Tree::Br(cs, d) => drop(q, 1), _ => q }
}
/// the encoded nodes on the way to q
pub open spec fn walk(t: Tree, q: Seq<int>) -> Seq<Seq<int>> decreases height(t) {
    if goes_on(t, q) && 0 <= height(next_tree(t, q)) < height(t) { seq![enc(nodeof(t))] + walk(next_tree(t, q), next_path(t, q)) }
    else { seq![enc(nodeof(t))] }
}
/// their references
pub open spec fn wrefs(t: Tree, q: Seq<int>) -> Set<Seq<int>> decreases height(t) {
    if goes_on(t, q) && 0 <= height(next_tree(t, q)) < height(t) { wrefs(next_tree(t, q), next_path(t, q)).insert(tref(t)) }
    else { Set::empty().insert(tref(t)) }
}
/// where the way ends, and what is left of q there
pub open spec fn end_tree(t: Tree, q: Seq<int>) -> Tree decreases height(t) {
    if goes_on(t, q) && 0 <= height(next_tree(t, q)) < height(t) { end_tree(next_tree(t, q), next_path(t, q)) } else { t }
}
pub open spec fn end_path(t: Tree, q: Seq<int>) -> Seq<int> decreases height(t) {
    if goes_on(t, q) && 0 <= height(next_tree(t, q)) < height(t) { end_path(next_tree(t, q), next_path(t, q)) } else { q }
}
pub proof fn lemma_next(t: Tree, q: Seq<int>)
    requires known(t), goes_on(t, q), is_nibs(q)
    ensures 0 <= height(next_tree(t, q)) < height(t), known(next_tree(t, q)), lookup(t, q) == lookup(next_tree(t, q), next_path(t, q)),
        is_nibs(next_path(t, q))
{
    lemma_height(next_tree(t, q));
    match t {
        Tree::Ext(p, c) => { lemma_nibs_drop(q, p.len() as int); }
        Tree::Br(cs, d) => { lemma_maxh(cs); assert(height(cs[q[0]]) <= maxh(cs)); lemma_nibs_drop(q, 1); }
        _ => {}
    }
}
/// the path has a value iff the last node on the way has it
pub proof fn lemma_end(t: Tree, q: Seq<int>)
    requires known(t), is_nibs(q)
    ensures lookup(t, q) == lookup(end_tree(t, q), end_path(t, q)), !goes_on(end_tree(t, q), end_path(t, q)), known(end_tree(t, q)), is_nibs(end_path(t, q)),
        match end_tree(t, q) {
            Tree::Nil => false,
            Tree::Leaf(p, d) => (lookup(t, q) is Some) == (p == end_path(t, q)),
            Tree::Ext(p, c) => lookup(t, q) is None,
            Tree::Br(cs, d) => (lookup(t, q) is Some) == (end_path(t, q).len() == 0 && d.len() > 0),
        }
    decreases height(t)
{
    reveal_with_fuel(lookup, 2);
    if goes_on(t, q) {
        lemma_next(t, q);
        lemma_end(next_tree(t, q), next_path(t, q));
    } else {
        match t {
            Tree::Br(cs, d) => { if q.len() > 0 { assert(0 <= q[0] < 16); assert(cs[q[0]] is Nil); } }
            _ => {}
        }
    }
}
pub open spec fn end_facts(t: Tree, q: Seq<int>) -> bool {
    &&& lookup(t, q) == lookup(end_tree(t, q), end_path(t, q)) && !goes_on(end_tree(t, q), end_path(t, q)) && known(end_tree(t, q)) && is_nibs(end_path(t, q))
    &&& match end_tree(t, q) {
        Tree::Nil => false,
        Tree::Leaf(p, d) => (lookup(t, q) is Some) == (p == end_path(t, q)),
        Tree::Ext(p, c) => lookup(t, q) is None,
        Tree::Br(cs, d) => (lookup(t, q) is Some) == (end_path(t, q).len() == 0 && d.len() > 0),
    }
}
pub proof fn lemma_end_at(t: Tree, q: Seq<int>)
    ensures known(t) && is_nibs(q) ==> end_facts(t, q)
{
    if known(t) && is_nibs(q) { lemma_end(t, q); }
}
/// the references of a list of encoded nodes
pub open spec fn refs_upto(es: Seq<Seq<int>>, n: int) -> Set<Seq<int>> decreases n {
    if n <= 0 { Set::empty() } else { refs_upto(es, n - 1).insert(nref(dec(es[n - 1]))) }
}
pub proof fn lemma_refs_in(es: Seq<Seq<int>>, n: int, r: Seq<int>)
    requires n <= es.len()
    ensures refs_upto(es, n).contains(r) == exists|j: int| 0 <= j < n && r == nref(dec(#[trigger] es[j]))
    decreases n
{
    if n > 0 {
        lemma_refs_in(es, n - 1, r);
        if exists|j: int| 0 <= j < n && r == nref(dec(#[trigger] es[j])) {
            let j = choose|j: int| 0 <= j < n && r == nref(dec(#[trigger] es[j]));
            if j < n - 1 { assert(0 <= j < n - 1 && r == nref(dec(es[j]))); }
        }
        if refs_upto(es, n).contains(r) {
            if r == nref(dec(es[n - 1])) { assert(0 <= n - 1 < n && r == nref(dec(es[n - 1]))); }
        }
    }
}
pub proof fn lemma_refs_cons(e: Seq<int>, es: Seq<Seq<int>>)
    ensures refs_upto(seq![e] + es, es.len() as int + 1) =~= refs_upto(es, es.len() as int).insert(nref(dec(e)))
{
    let l = seq![e] + es;
    assert forall|r: Seq<int>| #[trigger] refs_upto(l, l.len() as int).contains(r) == refs_upto(es, es.len() as int).insert(nref(dec(e))).contains(r) by {
        lemma_refs_in(l, l.len() as int, r);
        lemma_refs_in(es, es.len() as int, r);
        if exists|j: int| 0 <= j < l.len() && r == nref(dec(#[trigger] l[j])) {
            let j = choose|j: int| 0 <= j < l.len() && r == nref(dec(#[trigger] l[j]));
            if j > 0 { assert(l[j] == es[j - 1]); } else { assert(l[0] == e); }
        }
        if exists|j: int| 0 <= j < es.len() && r == nref(dec(#[trigger] es[j])) {
            let j = choose|j: int| 0 <= j < es.len() && r == nref(dec(#[trigger] es[j]));
            assert(l[j + 1] == es[j]);
        }
        if r == nref(dec(e)) { assert(l[0] == e); }
    }
}
pub open spec fn all_decodable(es: Seq<Seq<int>>) -> bool {
    forall|j: int| 0 <= j < es.len() ==> is_bytes(#[trigger] es[j]) && dec_ok(es[j]) && enc_ok(dec(es[j])) && node_data(dec(es[j])) && enc(dec(es[j])) == es[j]
}
/// what a verifier computes from the nodes of an honest proof
pub proof fn lemma_walk(t: Tree, q: Seq<int>)
    requires known(t), is_nibs(q)
    ensures walk(t, q).len() > 0, walk(t, q)[0] == enc(nodeof(t)), all_decodable(walk(t, q)),
        refs_upto(walk(t, q), walk(t, q).len() as int) =~= wrefs(t, q)
    decreases height(t)
{
    lemma_known_node(t);
    lemma_dec_enc(nodeof(t));
    let e = enc(nodeof(t));
    if goes_on(t, q) {
        lemma_next(t, q);
        let w = walk(next_tree(t, q), next_path(t, q));
        lemma_walk(next_tree(t, q), next_path(t, q));
        lemma_refs_cons(e, w);
        assert(walk(t, q) == seq![e] + w);
        assert forall|j: int| 0 <= j < (seq![e] + w).len() implies
            is_bytes(#[trigger] (seq![e] + w)[j]) && dec_ok((seq![e] + w)[j]) && enc_ok(dec((seq![e] + w)[j])) && node_data(dec((seq![e] + w)[j])) && enc(dec((seq![e] + w)[j])) == (seq![e] + w)[j] by {
            if j > 0 { assert((seq![e] + w)[j] == w[j - 1]); }
        }
    } else {
        let w = Seq::<Seq<int>>::empty();
        lemma_refs_cons(e, w);
        assert(seq![e] + w =~= seq![e]);
        assert(refs_upto(w, 0) =~= Set::empty());
    }
}
/// the references below a node differ from its own
pub proof fn lemma_wrefs_height(t: Tree, q: Seq<int>, t2: Tree)
    requires known(t), is_nibs(q), known(t2), height(t2) > height(t)
    ensures !wrefs(t, q).contains(tref(t2))
    decreases height(t)
{
    if tref(t) == tref(t2) { lemma_tree_unique(t, t2); }
    if goes_on(t, q) { lemma_next(t, q); lemma_wrefs_height(next_tree(t, q), next_path(t, q), t2); }
}
/// a proof storage: every entry decodes, is filed under the reference of its node, and was hashed
pub open spec fn psok(ps: Map<Seq<int>, Seq<int>>) -> bool {
    forall|r: Seq<int>| #[trigger] ps.dom().contains(r) ==> is_bytes(ps[r]) && dec_ok(ps[r]) && node_data(dec(ps[r])) && enc_ok(dec(ps[r]))
        && r == nref(dec(ps[r])) && (enc(dec(ps[r])).len() >= 32 ==> U(enc(dec(ps[r]))))
}
/// the tree behind a reference found in a decoded node
pub open spec fn pref(r: Seq<int>) -> bool { r.len() == 0 || r == emptyh() || kref(r) || is_rlp_of_empty(r) }
pub open spec fn ptree(r: Seq<int>) -> Tree { if is_rlp_of_empty(r) { Tree::Nil } else { t0(r) } }
/// the node the verifier works with: of the right shape, with only the spelling of empty references open
pub open spec fn pnode(n: NodeV, t: Tree, q: Seq<int>) -> bool {
    &&& node_data(n)
    &&& match n {
        NodeV::Leaf { p, d } => t == Tree::Leaf(p, d),
        NodeV::Ext { p, r } => t == Tree::Ext(p, Box::new(ptree(r))) && kref(r) && p.len() > 0 && r.len() > 0 && pref(r) && 0 <= height(ptree(r)) < height(t),
        NodeV::Branch { b, d } => t is Br && t->Br_1 == d && b.len() == 16 && t->Br_0.len() == 16
            && (forall|i: int| 0 <= i < 16 ==> pref(#[trigger] b[i]) && t->Br_0[i] == ptree(b[i]) && 0 <= height(ptree(b[i])) < height(t)
                && b[i] != emptyh() && (b[i].len() == 0 ==> ptree(b[i]) is Nil) && (b[i].len() > 0 ==> kref(b[i]) || is_rlp_of_empty(b[i]))),
    }
}
pub proof fn lemma_ptree(r: Seq<int>)
    ensures kref(r) ==> ptree(r) == tree_of(r) && !is_rlp_of_empty(r), is_rlp_of_empty(r) ==> r.len() == 1 && !dec_ok(r) && r != emptyh() && !kref(r)
{
    broadcast use ax_rlp_roundtrip;
    ax_rlp_empty_string();
    lemma_emptyh();
    assert(item_ok(Item::S(Seq::<int>::empty())));
    if kref(r) {
        lemma_kref(r);
        lemma_known_node(tree_of(r));
        if is_rlp_of_empty(r) {
            lemma_node_item_ok(nodeof(tree_of(r)));
            assert(r == enc(nodeof(tree_of(r))));
        }
    }
}
pub proof fn lemma_pnode_like(t: Tree, n: NodeV, q: Seq<int>)
    requires known(t), node_data(n), node_like(n, nodeof(t))
    ensures pnode(n, t, q)
{
    lemma_known_node(t);
    lemma_height(t);
    lemma_krefs();
    match t {
        Tree::Leaf(p, d) => {}
        Tree::Ext(p, c) => {
            let r = n->Ext_r;
            lemma_tree_of(*c);
            lemma_height(*c);
            lemma_known_node(*c);
            assert(r == tref(*c));
            lemma_ptree(r);
        }
        Tree::Br(cs, d) => {
            lemma_nodeof_br(cs, d);
            lemma_maxh(cs);
            let b = n->b;
            assert(b.len() == 16);
            assert forall|i: int| 0 <= i < 16 implies pref(#[trigger] b[i]) && cs[i] == ptree(b[i]) && 0 <= height(ptree(b[i])) < height(t)
                && b[i] != emptyh() && (b[i].len() == 0 ==> ptree(b[i]) is Nil) && (b[i].len() > 0 ==> kref(b[i]) || is_rlp_of_empty(b[i])) by {
                assert(trefs(cs)[i] == tref(cs[i]));
                assert(ref_like(b[i], trefs(cs)[i]));
                assert(0 <= height(cs[i]) <= maxh(cs));
                lemma_ptree(b[i]);
                lemma_emptyh();
                ax_rlp_empty_string();
                if !(cs[i] is Nil) {
                    lemma_tree_of(cs[i]);
                    lemma_known_node(cs[i]);
                }
            }
        }
        Tree::Nil => {}
    }
}
/// a proof storage holding exactly the nodes on the way
pub open spec fn exact(ps: Map<Seq<int>, Seq<int>>, r: Seq<int>, q: Seq<int>) -> bool {
    kref(r) && canonical(ps) && forall|x: Seq<int>| #[trigger] ps.dom().contains(x) == wrefs(ptree(r), q).contains(x)
}
/// every entry is the encoding of the node it decodes to
pub open spec fn canonical(ps: Map<Seq<int>, Seq<int>>) -> bool {
    forall|x: Seq<int>| #[trigger] ps.dom().contains(x) ==> ps[x] == enc(dec(ps[x]))
}
/// what a verifier finds at a reference
pub open spec fn popened(ps: Map<Seq<int>, Seq<int>>, r: Seq<int>, q: Seq<int>) -> bool {
    &&& kref(r) && ptree(r) == tree_of(r) && known(tree_of(r)) && tref(tree_of(r)) == r && r != emptyh() && 0 < r.len() <= 32 && ref_ok(r) && height(tree_of(r)) >= 1
    &&& wrefs(tree_of(r), q).contains(r)
    &&& r.len() != 32 || ps.dom().contains(r) ==> dec_ok(raw_of(ps, r)) && is_bytes(raw_of(ps, r)) && pnode(dec(raw_of(ps, r)), tree_of(r), q)
    &&& (r.len() != 32 || ps.dom().contains(r)) && (r.len() == 32 ==> ps[r] == enc(dec(ps[r]))) ==> dec(raw_of(ps, r)) == nodeof(tree_of(r))
    &&& tree_of(r) is Br ==> forall|i: int| 0 <= i < 16 && (#[trigger] nodeof(tree_of(r))->b[i]).len() > 0 ==> kref(nodeof(tree_of(r))->b[i])
    &&& goes_on(tree_of(r), q) ==> !wrefs(next_tree(tree_of(r), q), next_path(tree_of(r), q)).contains(r)
            && wrefs(tree_of(r), q) == wrefs(next_tree(tree_of(r), q), next_path(tree_of(r), q)).insert(r)
            && wrefs(tree_of(r), q).remove(r) =~= wrefs(next_tree(tree_of(r), q), next_path(tree_of(r), q))
            && end_tree(tree_of(r), q) == end_tree(next_tree(tree_of(r), q), next_path(tree_of(r), q))
            && end_path(tree_of(r), q) == end_path(next_tree(tree_of(r), q), next_path(tree_of(r), q))
            && walk(tree_of(r), q) == seq![enc(nodeof(tree_of(r)))] + walk(next_tree(tree_of(r), q), next_path(tree_of(r), q))
            && lookup(tree_of(r), q) == lookup(next_tree(tree_of(r), q), next_path(tree_of(r), q))
    &&& !goes_on(tree_of(r), q) ==> wrefs(tree_of(r), q) =~= Set::empty().insert(r) && end_tree(tree_of(r), q) == tree_of(r) && end_path(tree_of(r), q) == q
            && walk(tree_of(r), q) == seq![enc(nodeof(tree_of(r)))]
}
pub proof fn lemma_pat(ps: Map<Seq<int>, Seq<int>>, r: Seq<int>, q: Seq<int>)
    ensures kref(r) && psok(ps) && is_nibs(q) ==> popened(ps, r, q), is_rlp_of_empty(r) || r.len() == 0 ==> !dec_ok(r),
        is_rlp_of_empty(r) ==> r.len() == 1
{
    lemma_ptree(r);
    lemma_emptyh();
    if kref(r) && psok(ps) && is_nibs(q) {
        broadcast use ax_keccak_len, ax_no_collision;
        let t = tree_of(r);
        lemma_kref(r);
        lemma_height(t);
        lemma_known_node(t);
        lemma_dec_enc(nodeof(t));
        if r.len() != 32 || ps.dom().contains(r) {
            let x = raw_of(ps, r);
            if r.len() == 32 {
                let n = dec(x);
                assert(r == nref(n));
                assert(enc(nodeof(t)).len() >= 32);
                if enc(n).len() < 32 { assert(false); }
                assert(enc(n) == enc(nodeof(t)));
                lemma_enc_inj(n, nodeof(t));
                lemma_pnode_like(t, n, q);
            } else {
                assert(x == enc(nodeof(t)));
                lemma_node_like_refl(nodeof(t));
                lemma_pnode_like(t, nodeof(t), q);
            }
        }
        if goes_on(t, q) {
            lemma_next(t, q);
            lemma_wrefs_height(next_tree(t, q), next_path(t, q), t);
        }
        if t is Br {
            let cs = t->Br_0;
            lemma_nodeof_br(cs, t->Br_1);
            let b = nodeof(t)->b;
            assert forall|i: int| 0 <= i < 16 && (#[trigger] b[i]).len() > 0 implies kref(b[i]) by {
                assert(trefs(cs)[i] == tref(cs[i]));
                if !(cs[i] is Nil) { lemma_tree_of(cs[i]); lemma_known_node(cs[i]); }
            }
        }
    }
}
proof fn lemma_node_like_refl(n: NodeV)
    ensures node_like(n, n)
{}

// ---------------------------------------------------------------- honest proofs
/// a proof of inclusion of the path q in the tree with root reference r
pub open spec fn honest_poi(root: Option<Seq<int>>, key: Seq<int>, claimed: Seq<int>, es: Seq<Seq<int>>) -> bool {
    &&& root is Some && kref(root->0) && (claimed == root->0 || claimed == rhash(root))
    &&& lookup(troot(root), nibs(key)) is Some
    &&& es == walk(troot(root), nibs(key))
}
pub open spec fn honest_poe(root: Option<Seq<int>>, key: Seq<int>, es: Seq<Seq<int>>) -> bool {
    &&& root is Some && kref(root->0)
    &&& lookup(troot(root), nibs(key)) is None
    &&& es.len() > 0 && es.drop_last() =~= walk(troot(root), nibs(key))
    &&& es.last() == enc(NodeV::Leaf { p: end_path(troot(root), nibs(key)), d: nullb() })
}
/// b"null"
pub open spec fn nullb() -> Seq<int> { seq![110int, 117, 108, 108] }
pub open spec fn nodes_of(es: Seq<Seq<int>>) -> Seq<Seq<int>> { es.drop_last() }
/// what is used of an honest proof
pub proof fn lemma_honest(root: Option<Seq<int>>, key: Seq<int>)
    ensures root is Some && kref(root->0) && is_bytes(key) ==> {
        let t = troot(root);
        let w = walk(t, nibs(key));
        &&& known(t) && t == tree_of(root->0) && is_nibs(nibs(key)) && w.len() > 0 && all_decodable(w)
        &&& keccak(w[0]) == rhash(root) && refs_upto(w, w.len() as int) == wrefs(t, nibs(key))
        &&& root->0 != emptyh() && root->0.len() > 0
    }
{
    if root is Some && kref(root->0) && is_bytes(key) {
        lemma_kref(root->0);
        lemma_np_nibs(key, 0);
        lemma_walk(troot(root), nibs(key));
        lemma_known_node(troot(root));
        broadcast use ax_keccak_len;
        let r = root->0;
        let t = tree_of(r);
        assert(r == nref(nodeof(t)));
    }
}
pub proof fn lemma_refs_prefix(a: Seq<Seq<int>>, b: Seq<Seq<int>>, n: int)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures refs_upto(a, n) == refs_upto(b, n)
    decreases n
{
    if n > 0 { lemma_refs_prefix(a, b, n - 1); assert(a[n - 1] == b[n - 1]); }
}
/// the last entry of a proof of exclusion names the rest of the key
pub proof fn lemma_last(root: Option<Seq<int>>, key: Seq<int>, es: Seq<Seq<int>>)
    ensures root is Some && kref(root->0) && is_bytes(key) && honest_poe(root, key, es) ==> {
        let n = NodeV::Leaf { p: end_path(troot(root), nibs(key)), d: nullb() };
        &&& is_nibs(end_path(troot(root), nibs(key))) && dec_ok(es.last()) && dec(es.last()) == n && is_bytes(nullb())
        &&& es.drop_last() =~= es.subrange(0, es.len() - 1) && es.len() >= 2 && es[0] == es.drop_last()[0] && es.last() == es[es.len() - 1]
        &&& refs_upto(es, es.len() - 1) == wrefs(troot(root), nibs(key))
        &&& forall|j: int| 0 <= j < es.len() - 1 ==> is_bytes(#[trigger] es[j]) && dec_ok(es[j]) && enc_ok(dec(es[j])) && node_data(dec(es[j])) && enc(dec(es[j])) == es[j]
    }
{
    if root is Some && kref(root->0) && is_bytes(key) && honest_poe(root, key, es) {
        lemma_honest(root, key);
        lemma_end(troot(root), nibs(key));
        lemma_dec_enc(NodeV::Leaf { p: end_path(troot(root), nibs(key)), d: nullb() });
        lemma_refs_prefix(es, es.drop_last(), es.len() - 1);
        assert forall|j: int| 0 <= j < es.len() - 1 implies is_bytes(#[trigger] es[j]) && dec_ok(es[j]) && enc_ok(dec(es[j])) && node_data(dec(es[j])) && enc(dec(es[j])) == es[j] by {
            assert(es[j] == es.drop_last()[j]);
        }
    }
}
/// the verdict on a proof: of the root, the mode and the proof alone (the contracts show that nothing else is read)
pub uninterp spec fn poi_normal(r: Option<Seq<int>>, sec: bool, typ: Seq<int>, key: Seq<int>, root: Seq<int>, proof: Seq<Seq<int>>, time: Seq<int>) -> bool;
pub uninterp spec fn poi_value(r: Option<Seq<int>>, sec: bool, typ: Seq<int>, key: Seq<int>, root: Seq<int>, proof: Seq<Seq<int>>, time: Seq<int>) -> bool;
pub uninterp spec fn poe_normal(r: Option<Seq<int>>, sec: bool, typ: Seq<int>, key: Seq<int>, root: Seq<int>, proof: Seq<Seq<int>>, time: Seq<int>) -> bool;
pub uninterp spec fn poe_value(r: Option<Seq<int>>, sec: bool, typ: Seq<int>, key: Seq<int>, root: Seq<int>, proof: Seq<Seq<int>>, time: Seq<int>) -> bool;
} // verus!
