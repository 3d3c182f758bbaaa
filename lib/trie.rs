//! Content of a trie: look-up, insertion, deletion; a trie is determined by its content.
#![allow(unused_imports)]
use vstd::prelude::*;
use crate::base::*;
use crate::nib::*;
use crate::codec::*;
use crate::tree::*;
verus! {

pub open spec fn lookup(t: Tree, q: Seq<int>) -> Option<Seq<int>> decreases t {
    match t {
        Tree::Nil => None,
        Tree::Leaf(p, d) => if p == q { Some(d) } else { None },
        Tree::Ext(p, c) => if is_prefix(p, q) { lookup(*c, drop(q, p.len() as int)) } else { None },
        Tree::Br(cs, d) => if q.len() == 0 { if d.len() > 0 { Some(d) } else { None } }
            else if 0 <= q[0] < cs.len() { lookup(cs[q[0]], drop(q, 1)) } else { None },
    }
}
pub open spec fn mk_ext(p: Seq<int>, t: Tree) -> Tree { if p.len() > 0 { Tree::Ext(p, Box::new(t)) } else { t } }
pub open spec fn nils() -> Seq<Tree> { Seq::new(16, |i: int| Tree::Nil) }
pub open spec fn put_leaf(cs: Seq<Tree>, p: Seq<int>, v: Seq<int>) -> Seq<Tree> {
    if p.len() > 0 { cs.update(p[0], Tree::Leaf(drop(p, 1), v)) } else { cs }
}
pub open spec fn put_ext(cs: Seq<Tree>, p: Seq<int>, c: Tree) -> Seq<Tree> { cs.update(p[0], mk_ext(drop(p, 1), c)) }
/// the order in which two different slots are filled does not matter
pub broadcast proof fn lemma_put_leaf_leaf(cs: Seq<Tree>, p: Seq<int>, v: Seq<int>, q: Seq<int>, w: Seq<int>)
    requires p.len() == 0 || q.len() == 0 || p[0] != q[0]
    ensures #[trigger] put_leaf(put_leaf(cs, p, v), q, w) == put_leaf(put_leaf(cs, q, w), p, v)
{ assert(put_leaf(put_leaf(cs, p, v), q, w) =~= put_leaf(put_leaf(cs, q, w), p, v)); }
pub broadcast proof fn lemma_put_leaf_ext(cs: Seq<Tree>, p: Seq<int>, v: Seq<int>, q: Seq<int>, c: Tree)
    requires p.len() == 0 || p[0] != q[0]
    ensures #[trigger] put_ext(put_leaf(cs, p, v), q, c) == put_leaf(put_ext(cs, q, c), p, v)
{ assert(put_ext(put_leaf(cs, p, v), q, c) =~= put_leaf(put_ext(cs, q, c), p, v)); }
/// a branch with two leaves (one of them may be the value of the branch)
pub open spec fn two(pa: Seq<int>, va: Seq<int>, pb: Seq<int>, vb: Seq<int>) -> Tree {
    Tree::Br(put_leaf(put_leaf(nils(), pa, va), pb, vb),
        if pa.len() == 0 { va } else if pb.len() == 0 { vb } else { Seq::empty() })
}
pub open spec fn ins(t: Tree, p: Seq<int>, v: Seq<int>) -> Tree decreases t {
    match t {
        Tree::Nil => Tree::Leaf(p, v),
        Tree::Leaf(p0, d0) => if p0 == p { Tree::Leaf(p, v) } else {
            let n = clen(p, p0);
            mk_ext(cprefix(p, p0), two(drop(p, n), v, drop(p0, n), d0))
        },
        Tree::Ext(p0, c) => if is_prefix(p0, p) { Tree::Ext(p0, Box::new(ins(*c, drop(p, p0.len() as int), v))) } else {
            let n = clen(p, p0);
            mk_ext(cprefix(p, p0), Tree::Br(put_ext(put_leaf(nils(), drop(p, n), v), drop(p0, n), *c),
                if drop(p, n).len() == 0 { v } else { Seq::empty() }))
        },
        Tree::Br(cs, d) => if p.len() == 0 { Tree::Br(cs, v) }
            else if 0 <= p[0] < cs.len() { Tree::Br(cs.update(p[0], ins(cs[p[0]], drop(p, 1), v)), d) } else { t },
    }
}
/// the tree p + c in canonical form
pub open spec fn norm_ext(p: Seq<int>, c: Tree) -> Tree {
    match c {
        Tree::Nil => Tree::Nil,
        Tree::Leaf(p1, d) => Tree::Leaf(p + p1, d),
        Tree::Ext(p1, c1) => Tree::Ext(p + p1, c1),
        Tree::Br(cs, d) => Tree::Ext(p, Box::new(c)),
    }
}
pub open spec fn has_sole(cs: Seq<Tree>) -> bool { exists|i: int| 0 <= i < cs.len() && #[trigger] sole(cs, i) }
pub open spec fn the_sole(cs: Seq<Tree>) -> int { choose|i: int| 0 <= i < cs.len() && #[trigger] sole(cs, i) }
/// the branch in canonical form
pub open spec fn norm_br(cs: Seq<Tree>, d: Seq<int>) -> Tree {
    if all_nil(cs) { if d.len() == 0 { Tree::Nil } else { Tree::Leaf(Seq::empty(), d) } }
    else if d.len() == 0 && has_sole(cs) { norm_ext(seq![the_sole(cs)], cs[the_sole(cs)]) }
    else { Tree::Br(cs, d) }
}
pub open spec fn del(t: Tree, p: Seq<int>) -> Tree decreases t {
    match t {
        Tree::Nil => Tree::Nil,
        Tree::Leaf(p0, d0) => if p0 == p { Tree::Nil } else { t },
        Tree::Ext(p0, c) => if is_prefix(p0, p) { norm_ext(p0, del(*c, drop(p, p0.len() as int))) } else { t },
        Tree::Br(cs, d) => if p.len() == 0 { norm_br(cs, Seq::empty()) }
            else if 0 <= p[0] < cs.len() { norm_br(cs.update(p[0], del(cs[p[0]], drop(p, 1))), d) } else { t },
    }
}

// ---------------------------------------------------------------- content of insertion
pub proof fn lemma_sole_unique(cs: Seq<Tree>, i: int)
    requires 0 <= i < cs.len(), sole(cs, i)
    ensures has_sole(cs), the_sole(cs) == i
{
    let j = the_sole(cs);
    assert(0 <= j < cs.len() && sole(cs, j));
    if j != i { assert(cs[j] is Nil); }
}
pub proof fn lemma_split(p: Seq<int>, n: int)
    requires 0 <= n <= p.len()
    ensures p.subrange(0, n) + drop(p, n) =~= p
{}
pub proof fn lemma_cut(p: Seq<int>, q: Seq<int>)
    ensures is_prefix(p, q) ==> (q == p + drop(q, p.len() as int)),
{
    if is_prefix(p, q) { assert(q =~= p + drop(q, p.len() as int)); }
}
pub proof fn lemma_drop_prefix(p: Seq<int>, r: Seq<int>)
    ensures is_prefix(p, p + r), drop(p + r, p.len() as int) =~= r
{
    assert((p + r).subrange(0, p.len() as int) =~= p);
}
pub proof fn lemma_eq_drop(p: Seq<int>, q: Seq<int>, n: int)
    requires 0 <= n <= p.len(), n <= q.len(), p.subrange(0, n) == q.subrange(0, n)
    ensures (p == q) == (drop(p, n) == drop(q, n))
{
    lemma_split(p, n);
    lemma_split(q, n);
}
pub proof fn lemma_eq_first(p: Seq<int>, q: Seq<int>)
    requires p.len() > 0, q.len() > 0, p[0] == q[0]
    ensures (p == q) == (drop(p, 1) == drop(q, 1))
{
    assert(p.subrange(0, 1) =~= q.subrange(0, 1));
    lemma_eq_drop(p, q, 1);
}
pub proof fn lemma_mk_ext(p: Seq<int>, t: Tree, q: Seq<int>)
    ensures lookup(mk_ext(p, t), q) == if is_prefix(p, q) { lookup(t, drop(q, p.len() as int)) } else { None::<Seq<int>> }
{
    if p.len() == 0 { assert(q.subrange(0, 0) =~= p); assert(drop(q, 0) =~= q); }
}
pub proof fn lemma_clen_facts(p: Seq<int>, p0: Seq<int>)
    ensures
        0 <= clen(p, p0) <= p.len(), clen(p, p0) <= p0.len(),
        is_prefix(cprefix(p, p0), p), is_prefix(cprefix(p, p0), p0),
        p.subrange(0, clen(p, p0)) == p0.subrange(0, clen(p, p0)),
        p != p0 ==> clen(p, p0) < p.len() || clen(p, p0) < p0.len(),
        clen(p, p0) == p0.len() ==> is_prefix(p0, p),
        clen(p, p0) < p.len() && clen(p, p0) < p0.len() ==> p[clen(p, p0)] != p0[clen(p, p0)],
        cprefix(p, p0).len() == clen(p, p0),
{
    lemma_clen(p, p0);
    let n = clen(p, p0);
    assert(p.subrange(0, n) =~= p0.subrange(0, n));
    if p != p0 && n >= p.len() && n >= p0.len() { assert(p =~= p0); }
    if n == p0.len() { assert(p0.subrange(0, n) =~= p0); }
    assert(cprefix(p, p0).subrange(0, n) =~= cprefix(p, p0));
}
pub proof fn lemma_two(pa: Seq<int>, va: Seq<int>, pb: Seq<int>, vb: Seq<int>, q: Seq<int>)
    requires is_nibs(pa), is_nibs(pb), is_nibs(q), pa.len() > 0 || pb.len() > 0,
        pa.len() > 0 && pb.len() > 0 ==> pa[0] != pb[0], va.len() > 0, vb.len() > 0
    ensures lookup(two(pa, va, pb, vb), q) == if q == pa { Some(va) } else if q == pb { Some(vb) } else { None::<Seq<int>> }
{
    reveal_with_fuel(lookup, 3);
    if q.len() > 0 {
        assert(0 <= q[0] < 16);
        if pa.len() > 0 && pa[0] == q[0] { lemma_eq_first(pa, q); }
        if pb.len() > 0 && pb[0] == q[0] { lemma_eq_first(pb, q); }
        let cs = put_leaf(put_leaf(nils(), pa, va), pb, vb);
        if pa.len() > 0 { assert(0 <= pa[0] < 16); }
        if pb.len() > 0 { assert(0 <= pb[0] < 16); }
        let c = cs[q[0]];
        if pb.len() > 0 && pb[0] == q[0] { assert(c == Tree::Leaf(drop(pb, 1), vb)); }
        else if pa.len() > 0 && pa[0] == q[0] { assert(c == Tree::Leaf(drop(pa, 1), va)); }
        else { assert(c == Tree::Nil); }
    } else {
        assert(q =~= Seq::<int>::empty());
        if pa.len() == 0 { assert(pa =~= q); assert(q == pa); } else { assert(q != pa); }
        if pb.len() == 0 { assert(pb =~= q); assert(q == pb); } else { assert(q != pb); }
        assert(lookup(two(pa, va, pb, vb), q) == if pa.len() == 0 { Some(va) } else if pb.len() == 0 { Some(vb) } else { None });
    }
}
pub proof fn lemma_nibs_drop(p: Seq<int>, n: int)
    requires is_nibs(p), 0 <= n <= p.len()
    ensures is_nibs(drop(p, n))
{
    assert forall|i: int| 0 <= i < drop(p, n).len() implies 0 <= #[trigger] drop(p, n)[i] < 16 by { assert(0 <= p[i + n] < 16); }
}
pub proof fn lemma_ins(t: Tree, p: Seq<int>, v: Seq<int>, q: Seq<int>)
    requires okt(t), is_nibs(p), is_nibs(q), v.len() > 0
    ensures lookup(ins(t, p, v), q) == if p == q { Some(v) } else { lookup(t, q) }
    decreases t
{
    match t {
        Tree::Nil => {}
        Tree::Leaf(p0, d0) => {
            if p0 != p {
                lemma_clen_facts(p, p0);
                let n = clen(p, p0);
                let pre = cprefix(p, p0);
                lemma_mk_ext(pre, two(drop(p, n), v, drop(p0, n), d0), q);
                lemma_nibs_drop(p, n);
                lemma_nibs_drop(p0, n);
                if is_prefix(pre, q) {
                    lemma_nibs_drop(q, n);
                    lemma_two(drop(p, n), v, drop(p0, n), d0, drop(q, n));
                    lemma_eq_drop(p, q, n);
                    lemma_eq_drop(p0, q, n);
                }
            }
        }
        Tree::Ext(p0, c) => {
            if is_prefix(p0, p) {
                lemma_cut(p0, p);
                lemma_cut(p0, q);
                let n = p0.len() as int;
                if is_prefix(p0, q) {
                    lemma_nibs_drop(p, n);
                    lemma_nibs_drop(q, n);
                    lemma_ins(*c, drop(p, n), v, drop(q, n));
                    lemma_eq_drop(p, q, n);
                }
            } else {
                lemma_clen_facts(p, p0);
                let n = clen(p, p0);
                let pre = cprefix(p, p0);
                let a = drop(p, n);
                let b = drop(p0, n);
                let cs = put_ext(put_leaf(nils(), a, v), b, *c);
                let br = Tree::Br(cs, if a.len() == 0 { v } else { Seq::empty() });
                lemma_mk_ext(pre, br, q);
                lemma_nibs_drop(p, n);
                lemma_nibs_drop(p0, n);
                assert(0 <= b[0] < 16);
                lemma_cut(p0, q);
                if is_prefix(pre, q) {
                    lemma_nibs_drop(q, n);
                    let r = drop(q, n);
                    lemma_eq_drop(p, q, n);
                    if r.len() > 0 {
                        assert(0 <= r[0] < 16);
                        if a.len() > 0 { assert(0 <= a[0] < 16); assert(a[0] != b[0]); }
                        if r[0] == b[0] {
                            assert(cs[r[0]] == mk_ext(drop(b, 1), *c));
                            lemma_mk_ext(drop(b, 1), *c, drop(r, 1));
                            lemma_prefix_parts(p0, q, n);
                        } else if a.len() > 0 && r[0] == a[0] {
                            assert(cs[r[0]] == Tree::Leaf(drop(a, 1), v));
                            lemma_eq_first(a, r);
                            lemma_not_prefix(p0, q, n);
                        } else {
                            assert(cs[r[0]] == Tree::Nil);
                            lemma_not_prefix(p0, q, n);
                        }
                    } else {
                        assert(!is_prefix(p0, q));
                        if a.len() == 0 { assert(a =~= r); }
                    }
                } else {
                    // q does not start with the common prefix
                    if is_prefix(p0, q) { assert(q.subrange(0, n) =~= p0.subrange(0, n)); }
                }
            }
        }
        Tree::Br(cs, d) => {
            if p.len() > 0 { assert(0 <= p[0] < 16); }
            if q.len() > 0 { assert(0 <= q[0] < 16); }
            if p.len() > 0 && q.len() > 0 && p[0] == q[0] {
                lemma_nibs_drop(p, 1);
                lemma_nibs_drop(q, 1);
                lemma_ins(cs[p[0]], drop(p, 1), v, drop(q, 1));
                lemma_eq_first(p, q);
            }
            if p.len() == 0 && q.len() == 0 { assert(p =~= q); }
        }
    }
}
/// p0 is a prefix of q iff it agrees on the first n, at n, and after it
pub proof fn lemma_prefix_parts(p0: Seq<int>, q: Seq<int>, n: int)
    requires 0 <= n < p0.len(), n < q.len(), p0.subrange(0, n) == q.subrange(0, n), p0[n] == q[n]
    ensures is_prefix(p0, q) == is_prefix(drop(drop(p0, n), 1), drop(drop(q, n), 1)),
        is_prefix(p0, q) ==> drop(drop(drop(q, n), 1), drop(drop(p0, n), 1).len() as int) == drop(q, p0.len() as int)
{
    let a = drop(drop(p0, n), 1);
    let b = drop(drop(q, n), 1);
    if is_prefix(p0, q) {
        assert(b.subrange(0, a.len() as int) =~= a) by {
            assert forall|i: int| 0 <= i < a.len() implies b.subrange(0, a.len() as int)[i] == a[i] by { assert(q.subrange(0, p0.len() as int)[i + n + 1] == p0[i + n + 1]); }
        }
        assert(drop(b, a.len() as int) =~= drop(q, p0.len() as int));
    }
    if is_prefix(a, b) {
        assert(q.subrange(0, p0.len() as int) =~= p0) by {
            assert forall|i: int| 0 <= i < p0.len() implies q.subrange(0, p0.len() as int)[i] == p0[i] by {
                if i < n { assert(p0.subrange(0, n)[i] == q.subrange(0, n)[i]); }
                else if i > n { assert(b.subrange(0, a.len() as int)[i - n - 1] == a[i - n - 1]); }
            }
        }
    }
}
pub proof fn lemma_not_prefix(p0: Seq<int>, q: Seq<int>, n: int)
    requires 0 <= n < p0.len(), n < q.len(), p0[n] != q[n]
    ensures !is_prefix(p0, q)
{
    if is_prefix(p0, q) { assert(q.subrange(0, p0.len() as int)[n] == p0[n]); }
}

// ---------------------------------------------------------------- content of deletion
pub proof fn lemma_norm_ext(p: Seq<int>, c: Tree, q: Seq<int>)
    ensures lookup(norm_ext(p, c), q) == if is_prefix(p, q) { lookup(c, drop(q, p.len() as int)) } else { None::<Seq<int>> }
{
    lemma_cut(p, q);
    match c {
        Tree::Leaf(p1, d) => {
            lemma_drop_prefix(p, p1);
        }
        Tree::Ext(p1, c1) => {
            let r = drop(q, p.len() as int);
            if is_prefix(p, q) {
                assert(is_prefix(p + p1, q) == is_prefix(p1, r)) by {
                    if is_prefix(p + p1, q) {
                        assert(r.subrange(0, p1.len() as int) =~= p1) by {
                            assert forall|i: int| 0 <= i < p1.len() implies r.subrange(0, p1.len() as int)[i] == p1[i] by {
                                assert(q.subrange(0, (p + p1).len() as int)[i + p.len()] == (p + p1)[i + p.len()]);
                            }
                        }
                    }
                    if is_prefix(p1, r) { assert(q.subrange(0, (p + p1).len() as int) =~= p + p1); }
                }
                if is_prefix(p1, r) { assert(drop(r, p1.len() as int) =~= drop(q, (p + p1).len() as int)); }
            } else {
                if is_prefix(p + p1, q) {
                    assert(q.subrange(0, p.len() as int) =~= p) by {
                        assert forall|i: int| 0 <= i < p.len() implies q.subrange(0, p.len() as int)[i] == p[i] by {
                            assert(q.subrange(0, (p + p1).len() as int)[i] == (p + p1)[i]);
                        }
                    }
                }
            }
        }
        _ => {}
    }
}
pub proof fn lemma_norm_br(cs: Seq<Tree>, d: Seq<int>, q: Seq<int>)
    requires cs.len() == 16, is_nibs(q)
    ensures lookup(norm_br(cs, d), q) == lookup(Tree::Br(cs, d), q)
{
    reveal_with_fuel(lookup, 3);
    if q.len() > 0 { assert(0 <= q[0] < 16); } else { assert(q =~= Seq::<int>::empty()); }
    if all_nil(cs) {
        if q.len() > 0 { assert(cs[q[0]] is Nil); assert(lookup(Tree::Br(cs, d), q) is None); assert(q != Seq::<int>::empty()); }
        else { assert(lookup(Tree::Br(cs, d), q) == if d.len() > 0 { Some(d) } else { None }); assert(lookup(Tree::Leaf(Seq::empty(), d), q) == Some(d)); }
    } else if d.len() == 0 && has_sole(cs) {
        let i = the_sole(cs);
        assert(0 <= i < cs.len() && sole(cs, i));
        lemma_norm_ext(seq![i], cs[i], q);
        if q.len() > 0 {
            if q[0] == i { assert(q.subrange(0, 1) =~= seq![i]); }
            else { assert(cs[q[0]] is Nil); assert(q.subrange(0, 1)[0] != i); }
        }
    }
}
pub proof fn lemma_del(t: Tree, p: Seq<int>, q: Seq<int>)
    requires okt(t), is_nibs(p), is_nibs(q)
    ensures lookup(del(t, p), q) == if p == q { None::<Seq<int>> } else { lookup(t, q) }
    decreases t
{
    match t {
        Tree::Ext(p0, c) => {
            lemma_cut(p0, p);
            lemma_cut(p0, q);
            if is_prefix(p0, p) {
                let n = p0.len() as int;
                lemma_nibs_drop(p, n);
                lemma_norm_ext(p0, del(*c, drop(p, n)), q);
                if is_prefix(p0, q) {
                    lemma_nibs_drop(q, n);
                    lemma_del(*c, drop(p, n), drop(q, n));
                    lemma_eq_drop(p, q, n);
                }
            }
        }
        Tree::Br(cs, d) => {
            if p.len() > 0 { assert(0 <= p[0] < 16); }
            if q.len() > 0 { assert(0 <= q[0] < 16); }
            if p.len() == 0 {
                lemma_norm_br(cs, Seq::empty(), q);
                if q.len() == 0 { assert(p =~= q); }
            } else {
                lemma_nibs_drop(p, 1);
                let cs2 = cs.update(p[0], del(cs[p[0]], drop(p, 1)));
                lemma_norm_br(cs2, d, q);
                if q.len() > 0 && p[0] == q[0] {
                    lemma_nibs_drop(q, 1);
                    lemma_del(cs[p[0]], drop(p, 1), drop(q, 1));
                    lemma_eq_first(p, q);
                }
            }
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- canonicity
/// every known tree holds a key
pub proof fn lemma_some_key(t: Tree) -> (k: Seq<int>)
    requires known(t)
    ensures is_nibs(k), lookup(t, k) is Some
    decreases t
{
    match t {
        Tree::Leaf(p, d) => p,
        Tree::Ext(p, c) => {
            let k = lemma_some_key(*c);
            lemma_drop_prefix(p, k);
            p + k
        }
        Tree::Br(cs, d) => {
            let i = choose|i: int| 0 <= i < cs.len() && !((#[trigger] cs[i]) is Nil);
            assert(0 <= i < cs.len() && !(cs[i] is Nil));
            let k = lemma_some_key(cs[i]);
            lemma_cons(i, k);
            seq![i] + k
        }
        Tree::Nil => Seq::empty(),
    }
}
pub proof fn lemma_cons(i: int, k: Seq<int>)
    requires 0 <= i < 16, is_nibs(k)
    ensures is_nibs(seq![i] + k), (seq![i] + k)[0] == i, drop(seq![i] + k, 1) == k, (seq![i] + k).len() > 0
{
    assert(drop(seq![i] + k, 1) =~= k);
    let s = seq![i] + k;
    assert forall|j: int| 0 <= j < s.len() implies 0 <= #[trigger] s[j] < 16 by { if j > 0 { assert(0 <= k[j - 1] < 16); } }
}
/// a branch holds two keys that differ in the first position
pub proof fn lemma_diverge(t: Tree) -> (ks: (Seq<int>, Seq<int>))
    requires known(t), t is Br
    ensures is_nibs(ks.0), is_nibs(ks.1), lookup(t, ks.0) is Some, lookup(t, ks.1) is Some, ks.1.len() > 0,
        ks.0.len() == 0 || ks.0[0] != ks.1[0]
{
    let cs = t->Br_0;
    let d = t->Br_1;
    let i = choose|i: int| 0 <= i < cs.len() && !((#[trigger] cs[i]) is Nil);
    assert(0 <= i < cs.len() && !(cs[i] is Nil));
    let k = lemma_some_key(cs[i]);
    lemma_cons(i, k);
    if d.len() > 0 {
        (Seq::<int>::empty(), seq![i] + k)
    } else {
        assert(!sole(cs, i));
        let j = choose|j: int| 0 <= j < cs.len() && j != i && !((#[trigger] cs[j]) is Nil);
        assert(0 <= j < cs.len() && j != i && !(cs[j] is Nil));
        let k2 = lemma_some_key(cs[j]);
        lemma_cons(j, k2);
        (seq![j] + k2, seq![i] + k)
    }
}
pub open spec fn same(t: Tree, t2: Tree) -> bool { forall|q: Seq<int>| is_nibs(q) ==> #[trigger] lookup(t, q) == lookup(t2, q) }
pub proof fn lemma_ext_keys(p: Seq<int>, c: Tree, q: Seq<int>)
    ensures lookup(Tree::Ext(p, Box::new(c)), p + q) == lookup(c, q),
        is_nibs(p) && is_nibs(q) ==> is_nibs(p + q)
{
    lemma_drop_prefix(p, q);
    assert(is_nibs(p) && is_nibs(q) ==> is_nibs(p + q));
}
/// p is at most as long as p2 when both trees hold the same keys
proof fn lemma_ext_len(p: Seq<int>, c: Tree, p2: Seq<int>, c2: Tree)
    requires known(Tree::Ext(p, Box::new(c))), is_nibs(p2), same(Tree::Ext(p, Box::new(c)), Tree::Ext(p2, Box::new(c2)))
    ensures p2.len() <= p.len(), is_prefix(p2, p)
{
    let t = Tree::Ext(p, Box::new(c));
    let t2 = Tree::Ext(p2, Box::new(c2));
    let (a, b) = lemma_diverge(c);
    lemma_ext_keys(p, c, a);
    lemma_ext_keys(p, c, b);
    assert(lookup(t, p + a) == lookup(t2, p + a));
    assert(lookup(t, p + b) == lookup(t2, p + b));
    assert(is_prefix(p2, p + a));
    assert(is_prefix(p2, p + b));
    let n = p.len() as int;
    if p2.len() > n {
        assert((p + a).subrange(0, p2.len() as int)[n] == p2[n]);
        assert((p + b).subrange(0, p2.len() as int)[n] == p2[n]);
        assert((p + a)[n] == a[0]);
        assert((p + b)[n] == b[0]);
    }
    assert(p.subrange(0, p2.len() as int) =~= p2) by {
        assert forall|i: int| 0 <= i < p2.len() implies p.subrange(0, p2.len() as int)[i] == p2[i] by {
            assert((p + a).subrange(0, p2.len() as int)[i] == p2[i]);
        }
    }
}
/// a known tree that is not a leaf holds two keys, so it differs from any leaf
proof fn lemma_not_leaf(t: Tree, p: Seq<int>, d: Seq<int>)
    requires known(t), t is Ext || t is Br, same(t, Tree::Leaf(p, d))
    ensures false
{
    let l = Tree::Leaf(p, d);
    match t {
        Tree::Ext(p1, c) => {
            let (a, b) = lemma_diverge(*c);
            lemma_ext_keys(p1, *c, a);
            lemma_ext_keys(p1, *c, b);
            assert(lookup(t, p1 + a) == lookup(l, p1 + a));
            assert(lookup(t, p1 + b) == lookup(l, p1 + b));
            assert(p1 + a == p1 + b);
            lemma_drop_prefix(p1, a);
            lemma_drop_prefix(p1, b);
        }
        _ => {
            let (a, b) = lemma_diverge(t);
            assert(lookup(t, a) == lookup(l, a));
            assert(lookup(t, b) == lookup(l, b));
        }
    }
}
proof fn lemma_br_not_ext(t: Tree, p: Seq<int>, c: Tree)
    requires known(t), t is Br, p.len() > 0, same(t, Tree::Ext(p, Box::new(c)))
    ensures false
{
    let (a, b) = lemma_diverge(t);
    let t2 = Tree::Ext(p, Box::new(c));
    assert(lookup(t, a) == lookup(t2, a));
    assert(lookup(t, b) == lookup(t2, b));
    assert(is_prefix(p, a) && is_prefix(p, b));
    assert(a.subrange(0, p.len() as int)[0] == p[0]);
    assert(b.subrange(0, p.len() as int)[0] == p[0]);
}
/// tries with the same content are the same tree
pub proof fn lemma_canonical(t: Tree, t2: Tree)
    requires okt(t), okt(t2), same(t, t2)
    ensures t == t2
    decreases t
{
    assert(same(t2, t)) by { assert forall|q: Seq<int>| is_nibs(q) implies #[trigger] lookup(t2, q) == lookup(t, q) by { assert(lookup(t, q) == lookup(t2, q)); } }
    if t is Nil && !(t2 is Nil) { let k = lemma_some_key(t2); assert(lookup(t, k) == lookup(t2, k)); }
    if !(t is Nil) && t2 is Nil { let k = lemma_some_key(t); assert(lookup(t, k) == lookup(t2, k)); }
    match t {
        Tree::Nil => {}
        Tree::Leaf(p, d) => {
            match t2 {
                Tree::Leaf(p2, d2) => { assert(lookup(t, p) == lookup(t2, p)); }
                Tree::Nil => {}
                _ => { lemma_not_leaf(t2, p, d); }
            }
        }
        Tree::Ext(p, c) => {
            match t2 {
                Tree::Leaf(p2, d2) => { lemma_not_leaf(t, p2, d2); }
                Tree::Br(cs2, d2) => { lemma_br_not_ext(t2, p, *c); }
                Tree::Ext(p2, c2) => {
                    lemma_ext_len(p, *c, p2, *c2);
                    lemma_ext_len(p2, *c2, p, *c);
                    assert(p =~= p2) by { assert(p.subrange(0, p.len() as int) =~= p); }
                    assert forall|q: Seq<int>| is_nibs(q) implies #[trigger] lookup(*c, q) == lookup(*c2, q) by {
                        lemma_ext_keys(p, *c, q);
                        lemma_ext_keys(p, *c2, q);
                        assert(lookup(t, p + q) == lookup(t2, p + q));
                    }
                    lemma_canonical(*c, *c2);
                }
                Tree::Nil => {}
            }
        }
        Tree::Br(cs, d) => {
            match t2 {
                Tree::Leaf(p2, d2) => { lemma_not_leaf(t, p2, d2); }
                Tree::Ext(p2, c2) => { lemma_br_not_ext(t, p2, *c2); }
                Tree::Br(cs2, d2) => {
                    let e = Seq::<int>::empty();
                    assert(lookup(t, e) == lookup(t2, e));
                    if d.len() == 0 || d2.len() == 0 { assert(d =~= d2); }
                    assert forall|i: int| 0 <= i < cs.len() implies cs[i] == cs2[i] by {
                        assert forall|q: Seq<int>| is_nibs(q) implies #[trigger] lookup(cs[i], q) == lookup(cs2[i], q) by {
                            lemma_cons(i, q);
                            assert(lookup(t, seq![i] + q) == lookup(t2, seq![i] + q));
                        }
                        lemma_canonical(cs[i], cs2[i]);
                    }
                    assert(cs =~= cs2);
                }
                Tree::Nil => {}
            }
        }
    }
}
} // verus!
