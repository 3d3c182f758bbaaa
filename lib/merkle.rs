//! Merkle trees over a list of leaves, and their inclusion proofs.
#![allow(unused_imports)]
use vstd::prelude::*;
use crate::base::*;
use crate::codec::*;
use crate::text::*;
use crate::hashes::*;
verus! {

/// the value of a leaf: hashed first in secure mode
pub open spec fn leafval(a: Seq<int>, secure: bool, v: Seq<int>) -> Seq<int> { if secure { hf(a, v) } else { v } }
/// neighbouring pairs are replaced by the hash of their concatenation, an odd last one is passed up
pub open spec fn level_up(a: Seq<int>, l: Seq<Seq<int>>) -> Seq<Seq<int>> {
    Seq::new(((l.len() + 1) / 2) as nat, |i: int| if 2 * i + 1 < l.len() { hf(a, l[2 * i] + l[2 * i + 1]) } else { l[2 * i] })
}
pub open spec fn mroot(a: Seq<int>, l: Seq<Seq<int>>) -> Seq<int> decreases l.len() {
    if l.len() <= 1 { l[0] } else { mroot(a, level_up(a, l)) }
}
/// each level but the last is the one above the next
#[verifier::opaque]
pub open spec fn chain(a: Seq<int>, lv: Seq<Seq<Seq<int>>>) -> bool {
    forall|i: int| 0 <= i < lv.len() - 1 ==> #[trigger] lv[i] == level_up(a, lv[i + 1])
}
pub open spec fn good_levels(a: Seq<int>, lv: Seq<Seq<Seq<int>>>, leaves: Seq<Seq<int>>) -> bool {
    lv.len() > 0 && lv[0].len() == 1 && lv[lv.len() - 1] == leaves && chain(a, lv)
}
pub open spec fn mt_inv(a: Seq<int>, leaves: Seq<Seq<int>>, levels: Option<Seq<Seq<Seq<int>>>>, ready: bool) -> bool {
    &&& known_alg(a)
    &&& leaves.len() == 0 ==> levels is None
    &&& ready && levels is Some ==> good_levels(a, levels->0, leaves)
    &&& ready && levels is None ==> leaves.len() == 0
}
pub proof fn lemma_level_up(a: Seq<int>, l: Seq<Seq<int>>)
    requires all_bytes(l)
    ensures all_bytes(level_up(a, l))
{
    broadcast use ax_hf_len;
    let u = level_up(a, l);
    assert forall|i: int| 0 <= i < u.len() implies is_bytes(#[trigger] u[i]) by {
        if 2 * i + 1 < l.len() { } else { assert(is_bytes(l[2 * i])); }
    }
}
pub proof fn lemma_chain_bytes(a: Seq<int>, lv: Seq<Seq<Seq<int>>>, x: int)
    requires chain(a, lv), 0 <= x < lv.len(), all_bytes(lv[lv.len() - 1])
    ensures all_bytes(lv[x])
    decreases lv.len() - x
{
    reveal(chain);
    if x < lv.len() - 1 {
        lemma_chain_bytes(a, lv, x + 1);
        lemma_level_up(a, lv[x + 1]);
        assert(lv[x] == level_up(a, lv[x + 1]));
    }
}
pub proof fn lemma_chain_root(a: Seq<int>, lv: Seq<Seq<Seq<int>>>, x: int)
    requires chain(a, lv), 0 <= x < lv.len(), lv[0].len() == 1
    ensures lv[x].len() > 0, mroot(a, lv[x]) == lv[0][0]
    decreases x
{
    reveal(chain);
    if x > 0 {
        lemma_chain_root(a, lv, x - 1);
        assert(lv[x - 1] == level_up(a, lv[x]));
        if lv[x].len() == 1 {
            assert(level_up(a, lv[x]) =~= lv[x]);
        }
    }
}
/// sizes of neighbouring levels
pub proof fn lemma_level_sizes(a: Seq<int>, lv: Seq<Seq<Seq<int>>>)
    ensures chain(a, lv) ==> forall|x: int, y: int| #![trigger lv[x], lv[y]] 0 < x < lv.len() && y == x - 1 ==> lv[y].len() == (lv[x].len() + 1) / 2,
{
    reveal(chain);
    if chain(a, lv) {
        assert forall|x: int, y: int| #![trigger lv[x], lv[y]] 0 < x < lv.len() && y == x - 1 implies lv[y].len() == (lv[x].len() + 1) / 2 by {
            assert(lv[y] == level_up(a, lv[y + 1]));
        }
    }
}
/// the level above is put in front
pub proof fn lemma_chain_cons(a: Seq<int>)
    ensures forall|u: Seq<Seq<int>>, v: Seq<Seq<Seq<int>>>| chain(a, v) && v.len() > 0 && u == level_up(a, v[0]) ==> chain(a, #[trigger] (seq![u] + v)),
        forall|l: Seq<Seq<int>>| chain(a, #[trigger] seq![l]),
{
    reveal(chain);
    assert forall|u: Seq<Seq<int>>, v: Seq<Seq<Seq<int>>>| chain(a, v) && v.len() > 0 && u == level_up(a, v[0]) implies chain(a, #[trigger] (seq![u] + v)) by {
        let w = seq![u] + v;
        assert forall|i: int| 0 <= i < w.len() - 1 implies #[trigger] w[i] == level_up(a, w[i + 1]) by {
            if i > 0 { assert(w[i] == v[i - 1]); assert(w[i + 1] == v[i]); assert(v[i - 1] == level_up(a, v[i - 1 + 1])); }
        }
    }
}
/// the levels show the root
pub proof fn lemma_levels(a: Seq<int>, lv: Seq<Seq<Seq<int>>>, leaves: Seq<Seq<int>>)
    ensures good_levels(a, lv, leaves) ==> lv[0][0] == mroot(a, leaves) && leaves.len() > 0,
        good_levels(a, lv, leaves) && all_bytes(leaves) ==> is_bytes(lv[0][0]) && is_bytes(mroot(a, leaves)) && is_ascii(hexs(mroot(a, leaves))),
{
    if good_levels(a, lv, leaves) {
        lemma_chain_root(a, lv, lv.len() - 1);
        if all_bytes(leaves) {
            lemma_chain_bytes(a, lv, 0);
            assert(is_bytes(lv[0][0]));
            lemma_hexs(mroot(a, leaves));
        }
    }
}
pub proof fn lemma_mroot_bytes(a: Seq<int>, l: Seq<Seq<int>>)
    requires all_bytes(l), l.len() > 0
    ensures is_bytes(mroot(a, l)), is_ascii(hexs(mroot(a, l))), is_bytes(hexs(mroot(a, l)))
    decreases l.len()
{
    if l.len() > 1 { lemma_level_up(a, l); lemma_mroot_bytes(a, level_up(a, l)); }
    else { assert(is_bytes(l[0])); lemma_hexs(l[0]); }
}

// ---------------------------------------------------------------- proofs
/// a step: the side the sibling is on ("left" or "right") and the sibling in hexadecimal
pub type Step = (Seq<int>, Seq<int>);
pub open spec fn t_left() -> Seq<int> { seq![108int, 101int, 102int, 116int] }
pub open spec fn t_right() -> Seq<int> { seq![114int, 105int, 103int, 104int, 116int] }
pub open spec fn step_ok(s: Step) -> bool { (s.0 =~= t_left() || s.0 =~= t_right()) && hex_ok(s.1) }
pub open spec fn step_input(h: Seq<int>, s: Step) -> Seq<int> { if s.0 =~= t_left() { unhex(s.1) + h } else { h + unhex(s.1) } }
pub open spec fn steps_ok(p: Seq<Step>) -> bool { forall|i: int| 0 <= i < p.len() ==> step_ok(#[trigger] p[i]) }
/// the hash obtained from t by the steps, in order
pub open spec fn fold(a: Seq<int>, t: Seq<int>, p: Seq<Step>) -> Seq<int> decreases p.len() {
    if p.len() == 0 { t } else { hf(a, step_input(fold(a, t, p.drop_last()), p.last())) }
}
/// everything hashed on the way
pub open spec fn folded(a: Seq<int>, t: Seq<int>, p: Seq<Step>) -> bool decreases p.len() {
    p.len() == 0 || (folded(a, t, p.drop_last()) && HU(a, step_input(fold(a, t, p.drop_last()), p.last())))
}
pub proof fn lemma_fold_step(a: Seq<int>, t: Seq<int>, p: Seq<Step>)
    ensures p.subrange(0, p.len() as int) == p, p.subrange(0, 0) == Seq::<Step>::empty(),
        fold(a, t, p.subrange(0, 0)) == t, folded(a, t, p.subrange(0, 0)), steps_ok(p.subrange(0, 0)),
        forall|i: int| 0 <= i < p.len() ==> fold(a, t, p.subrange(0, i + 1)) == hf(a, step_input(fold(a, t, p.subrange(0, i)), #[trigger] p[i])),
        forall|i: int| 0 <= i < p.len() ==> folded(a, t, p.subrange(0, i + 1)) == (folded(a, t, p.subrange(0, i))
            && HU(a, step_input(fold(a, t, p.subrange(0, i)), #[trigger] p[i]))),
        forall|i: int| 0 <= i < p.len() ==> steps_ok(p.subrange(0, i + 1)) == (steps_ok(p.subrange(0, i)) && step_ok(#[trigger] p[i])),
        forall|i: int| 0 <= i < p.len() && !step_ok(#[trigger] p[i]) ==> !steps_ok(p),
{
    assert(p.subrange(0, p.len() as int) =~= p);
    assert(p.subrange(0, 0) =~= Seq::<Step>::empty());
    assert forall|i: int| 0 <= i < p.len() implies fold(a, t, p.subrange(0, i + 1)) == hf(a, step_input(fold(a, t, p.subrange(0, i)), #[trigger] p[i]))
        && folded(a, t, p.subrange(0, i + 1)) == (folded(a, t, p.subrange(0, i)) && HU(a, step_input(fold(a, t, p.subrange(0, i)), p[i])))
        && steps_ok(p.subrange(0, i + 1)) == (steps_ok(p.subrange(0, i)) && step_ok(p[i])) by {
        let q = p.subrange(0, i + 1);
        assert(q.drop_last() =~= p.subrange(0, i));
        assert(q.last() == p[i]);
        if steps_ok(q) {
            assert(step_ok(q[i]));
            assert forall|j: int| 0 <= j < i implies step_ok(#[trigger] p.subrange(0, i)[j]) by { assert(step_ok(q[j])); }
        }
        if steps_ok(p.subrange(0, i)) && step_ok(p[i]) {
            assert forall|j: int| 0 <= j < q.len() implies step_ok(#[trigger] q[j]) by { if j < i { assert(step_ok(p.subrange(0, i)[j])); } }
        }
    }
}
pub proof fn lemma_fold_front(a: Seq<int>, t: Seq<int>, s: Step, p: Seq<Step>)
    ensures fold(a, t, seq![s] + p) == fold(a, hf(a, step_input(t, s)), p)
    decreases p.len()
{
    let q = seq![s] + p;
    if p.len() == 0 {
        assert(q.drop_last() =~= Seq::<Step>::empty());
        assert(q.last() == s);
        assert(fold(a, t, q.drop_last()) == t);
    } else {
        assert(q.drop_last() =~= seq![s] + p.drop_last());
        assert(q.last() == p.last());
        lemma_fold_front(a, t, s, p.drop_last());
    }
}
/// the siblings on the way from element i of level x to the root
pub open spec fn mpath(lv: Seq<Seq<Seq<int>>>, x: int, i: int) -> Seq<Step> decreases x {
    if x <= 0 { Seq::empty() }
    else if i == lv[x].len() - 1 && lv[x].len() % 2 == 1 { mpath(lv, x - 1, i / 2) }
    else if i % 2 == 0 { seq![(t_right(), hexs(lv[x][i + 1]))] + mpath(lv, x - 1, i / 2) }
    else { seq![(t_left(), hexs(lv[x][i - 1]))] + mpath(lv, x - 1, i / 2) }
}
pub open spec fn step_text(p: Seq<Step>) -> bool {
    forall|j: int| 0 <= j < p.len() ==> is_ascii((#[trigger] p[j]).0) && is_ascii(p[j].1)
}
proof fn lemma_front_ok(s: Step, r: Seq<Step>)
    requires step_ok(s), is_ascii(s.0), is_ascii(s.1), steps_ok(r), step_text(r)
    ensures steps_ok(seq![s] + r), step_text(seq![s] + r)
{
    let p = seq![s] + r;
    assert forall|j: int| 0 <= j < p.len() implies step_ok(#[trigger] p[j]) && is_ascii(p[j].0) && is_ascii(p[j].1) by {
        if j > 0 { assert(p[j] == r[j - 1]); assert(step_ok(r[j - 1])); }
    }
}
proof fn lemma_sibling(a: Seq<int>, l: Seq<Seq<int>>, i: int, k: int, side: Seq<int>)
    requires all_bytes(l), 0 <= i < l.len(), 0 <= k < l.len(),
        (i % 2 == 0 && k == i + 1 && side == t_right()) || (i % 2 == 1 && k == i - 1 && side == t_left())
    ensures step_ok((side, hexs(l[k]))), is_ascii(side), is_ascii(hexs(l[k])),
        hf(a, step_input(l[i], (side, hexs(l[k])))) == level_up(a, l)[i / 2]
{
    assert(is_bytes(l[k]));
    lemma_hexs(l[k]);
    assert(!(t_right() =~= t_left())) by { assert(t_right().len() != t_left().len()); }
    if i % 2 == 0 { assert(2 * (i / 2) == i); } else { assert(2 * (i / 2) == i - 1); }
}
pub proof fn lemma_mpath(a: Seq<int>, lv: Seq<Seq<Seq<int>>>, x: int, i: int)
    requires chain(a, lv), 0 <= x < lv.len(), lv[0].len() == 1, all_bytes(lv[lv.len() - 1]), 0 <= i < lv[x].len()
    ensures fold(a, lv[x][i], mpath(lv, x, i)) == lv[0][0], steps_ok(mpath(lv, x, i)), step_text(mpath(lv, x, i)),
    decreases x
{
    reveal(chain);
    if x > 0 {
        let l = lv[x];
        let r = mpath(lv, x - 1, i / 2);
        assert(lv[x - 1] == level_up(a, l));
        assert(0 <= i / 2 < lv[x - 1].len());
        lemma_mpath(a, lv, x - 1, i / 2);
        if i == l.len() - 1 && l.len() % 2 == 1 {
            assert(2 * (i / 2) == i);
            assert(lv[x - 1][i / 2] == l[i]);
        } else {
            lemma_chain_bytes(a, lv, x);
            let k = if i % 2 == 0 { i + 1 } else { i - 1 };
            let side = if i % 2 == 0 { t_right() } else { t_left() };
            lemma_sibling(a, l, i, k, side);
            let s = (side, hexs(l[k]));
            assert(mpath(lv, x, i) == seq![s] + r);
            lemma_fold_front(a, l[i], s, r);
            lemma_front_ok(s, r);
        }
    }
}
pub proof fn lemma_first(s: Seq<Seq<int>>, x: Seq<int>)
    ensures forall|i: int| #[trigger] first_index(s, x, i) ==> i == the_index(s, x) && 0 <= i < s.len() && s[i] == x,
        s.contains(x) ==> first_index(s, x, the_index(s, x)),
{
    assert forall|i: int| #[trigger] first_index(s, x, i) implies i == the_index(s, x) by {
        let j = the_index(s, x);
        assert(first_index(s, x, j));
        if i < j { assert(s[i] != x); }
        if j < i { assert(s[j] != x); }
    }
    if s.contains(x) { lemma_first_exists(s, x, s.len() as int); }
}
proof fn lemma_first_exists(s: Seq<Seq<int>>, x: Seq<int>, n: int)
    requires 0 <= n <= s.len(), exists|i: int| 0 <= i < n && s[i] == x
    ensures exists|i: int| first_index(s, x, i)
    decreases n
{
    if exists|i: int| 0 <= i < n - 1 && s[i] == x { lemma_first_exists(s, x, n - 1); }
    else { assert(first_index(s, x, n - 1)); }
}
pub open spec fn the_index(s: Seq<Seq<int>>, x: Seq<int>) -> int { choose|i: int| first_index(s, x, i) }
pub open spec fn the_path(lv: Seq<Seq<Seq<int>>>, v: Seq<int>) -> Seq<Step> {
    mpath(lv, lv.len() - 1, the_index(lv[lv.len() - 1], v))
}

// ---------------------------------------------------------------- proof objects
/// entry of a proof: bytes or a tuple of bytes
#[verifier::ext_equal]
pub enum Entry { B(Seq<int>), T(Seq<Seq<int>>) }
pub open spec fn entry_ok(e: Entry) -> bool { match e { Entry::B(b) => is_bytes(b), Entry::T(l) => all_bytes(l) } }
pub open spec fn entries_ok(l: Seq<Entry>) -> bool { forall|i: int| 0 <= i < l.len() ==> entry_ok(#[trigger] l[i]) }
/// the entry can be read as a step
pub open spec fn step_entry(e: Entry) -> bool { e is T && (e->T_0).len() >= 2 && utf8_ok((e->T_0)[0]) && utf8_ok((e->T_0)[1]) }
pub open spec fn step_of(e: Entry) -> Step { (utf8_dec((e->T_0)[0]), utf8_dec((e->T_0)[1])) }
pub open spec fn steps_of(l: Seq<Entry>) -> Seq<Step> { Seq::new(l.len(), |i: int| step_of(l[i])) }
pub open spec fn step_entries(l: Seq<Entry>) -> bool { forall|i: int| 0 <= i < l.len() ==> step_entry(#[trigger] l[i]) }
pub open spec fn entries_of(p: Seq<Step>) -> Seq<Entry> { Seq::new(p.len(), |i: int| Entry::T(seq![p[i].0, p[i].1])) }
pub proof fn lemma_entries(p: Seq<Step>)
    requires step_text(p)
    ensures step_entries(entries_of(p)), steps_of(entries_of(p)) =~= p
{
    broadcast use ax_ascii_dec;
    assert forall|i: int| 0 <= i < p.len() implies step_entry(#[trigger] entries_of(p)[i]) && step_of(entries_of(p)[i]) == p[i] by {
        assert(is_ascii(p[i].0));
    }
}
pub proof fn lemma_step_entries(l: Seq<Entry>)
    ensures l.subrange(0, l.len() as int) == l, steps_of(l).subrange(0, l.len() as int) == steps_of(l),
        forall|i: int| 0 <= i < l.len() ==> step_entries(l.subrange(0, i + 1)) == (step_entries(l.subrange(0, i)) && step_entry(#[trigger] l[i])),
        forall|i: int| 0 <= i < l.len() && !step_entry(#[trigger] l[i]) ==> !step_entries(l),
{
    assert(l.subrange(0, l.len() as int) =~= l);
    assert(steps_of(l).subrange(0, l.len() as int) =~= steps_of(l));
    assert forall|i: int| 0 <= i < l.len() implies step_entries(l.subrange(0, i + 1)) == (step_entries(l.subrange(0, i)) && step_entry(#[trigger] l[i])) by {
        let q = l.subrange(0, i + 1);
        if step_entries(q) {
            assert(step_entry(q[i]));
            assert forall|j: int| 0 <= j < i implies step_entry(#[trigger] l.subrange(0, i)[j]) by { assert(step_entry(q[j])); }
        }
        if step_entries(l.subrange(0, i)) && step_entry(l[i]) {
            assert forall|j: int| 0 <= j < q.len() implies step_entry(#[trigger] q[j]) by { if j < i { assert(step_entry(l.subrange(0, i)[j])); } }
        }
    }
}
/// what a tree with these leaves makes of a proof
/// reading all the entries at once gives their steps
pub broadcast proof fn lemma_steps_read(l: Seq<Entry>, m: Seq<Step>)
    requires m.len() == l.len(), forall|i: int| 0 <= i < l.len() ==> #[trigger] m[i] == step_of(l[i])
    ensures #[trigger] steps_of(l) == m, #[trigger] steps_ok(m) == steps_ok(steps_of(l))
{ assert(steps_of(l) =~= m); }
pub broadcast proof fn lemma_step_at(l: Seq<Entry>, i: int)
    requires #[trigger] step_entries(l), 0 <= i < l.len()
    ensures #[trigger] tg(i), step_entry(l[i])
{ }
pub open spec fn mt_accepts(a: Seq<int>, secure: bool, leaves: Seq<Seq<int>>, target: Seq<int>, root: Seq<int>, entries: Seq<Entry>) -> bool {
    &&& step_entries(entries)
    &&& steps_ok(steps_of(entries))
    &&& utf8_ok(root) && hex_ok(utf8_dec(root))
    &&& fold(a, leafval(a, secure, target), steps_of(entries)) == unhex(utf8_dec(root))
    &&& leaves.len() > 0 && root == hexs(mroot(a, leaves))
}
/// combining the target with the siblings gives the root (on proper entries)
pub proof fn lemma_accepts(a: Seq<int>, secure: bool, leaves: Seq<Seq<int>>, target: Seq<int>, root: Seq<int>, entries: Seq<Entry>)
    requires all_bytes(leaves), leaves.len() > 0
    ensures mt_accepts(a, secure, leaves, target, root, entries) <==>
        step_entries(entries) && steps_ok(steps_of(entries)) && root == hexs(mroot(a, leaves))
        && fold(a, leafval(a, secure, target), steps_of(entries)) == mroot(a, leaves)
{
    broadcast use ax_ascii_dec;
    lemma_mroot_bytes(a, leaves);
    lemma_hexs(mroot(a, leaves));
}
/// the proof generated for a leaf is accepted
pub proof fn lemma_complete(a: Seq<int>, secure: bool, leaves: Seq<Seq<int>>, lv: Seq<Seq<Seq<int>>>, target: Seq<int>)
    requires all_bytes(leaves), good_levels(a, lv, leaves), leaves.contains(leafval(a, secure, target))
    ensures mt_accepts(a, secure, leaves, target, hexs(mroot(a, leaves)), entries_of(the_path(lv, leafval(a, secure, target))))
{
    let v = leafval(a, secure, target);
    lemma_first(leaves, v);
    let i = the_index(leaves, v);
    lemma_levels(a, lv, leaves);
    lemma_mpath(a, lv, lv.len() - 1, i);
    lemma_entries(the_path(lv, v));
    lemma_accepts(a, secure, leaves, target, hexs(mroot(a, leaves)), entries_of(the_path(lv, v)));
}
pub proof fn lemma_path_text(a: Seq<int>, lv: Seq<Seq<Seq<int>>>, leaves: Seq<Seq<int>>, v: Seq<int>)
    requires all_bytes(leaves), good_levels(a, lv, leaves), leaves.contains(v)
    ensures step_text(the_path(lv, v)),
        forall|i: int| 0 <= i < the_path(lv, v).len() ==> is_ascii((#[trigger] the_path(lv, v)[i]).0) && is_ascii(the_path(lv, v)[i].1),
{
    lemma_first(leaves, v);
    lemma_mpath(a, lv, lv.len() - 1, the_index(leaves, v));
}
/// one list of sides, siblings of the same length: one target
pub open spec fn same_shape(p: Seq<Step>, q: Seq<Step>) -> bool {
    p.len() == q.len() && forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).0 == q[i].0 && unhex(p[i].1).len() == unhex(q[i].1).len()
}
pub proof fn lemma_fold_inj(a: Seq<int>, t: Seq<int>, u: Seq<int>, p: Seq<Step>, q: Seq<Step>)
    requires same_shape(p, q), folded(a, t, p), folded(a, u, q), fold(a, t, p) == fold(a, u, q)
    ensures t == u
    decreases p.len()
{
    broadcast use ax_hf_no_collision;
    if p.len() > 0 {
        let (x, y) = (fold(a, t, p.drop_last()), fold(a, u, q.drop_last()));
        let (s, r) = (p.last(), q.last());
        assert(p[p.len() - 1].0 == q[p.len() - 1].0);
        assert(HU(a, step_input(x, s)) && HU(a, step_input(y, r)));
        assert(step_input(x, s) == step_input(y, r));
        let (m, n) = (unhex(s.1), unhex(r.1));
        assert(m.len() == n.len());
        if s.0 =~= t_left() {
            assert(x =~= (m + x).subrange(m.len() as int, (m + x).len() as int));
            assert(y =~= (n + y).subrange(n.len() as int, (n + y).len() as int));
        } else {
            assert(x + m == y + n);
            assert((x + m).len() == x.len() + m.len() && (y + n).len() == y.len() + n.len());
            assert(x =~= (x + m).subrange(0, x.len() as int));
            assert(y =~= (y + n).subrange(0, y.len() as int));
        }
        assert(x == y);
        assert(same_shape(p.drop_last(), q.drop_last())) by {
            assert forall|i: int| 0 <= i < p.drop_last().len() implies (#[trigger] p.drop_last()[i]).0 == q.drop_last()[i].0
                && unhex(p.drop_last()[i].1).len() == unhex(q.drop_last()[i].1).len() by { assert(p[i].0 == q[i].0); }
        }
        lemma_fold_inj(a, t, u, p.drop_last(), q.drop_last());
    }
}
/// C18: no two different targets are accepted with siblings of the same length on the same sides
pub proof fn lemma_one_target(a: Seq<int>, secure: bool, leaves: Seq<Seq<int>>, t: Seq<int>, u: Seq<int>, r1: Seq<int>, r2: Seq<int>,
        e: Seq<Entry>, f: Seq<Entry>)
    requires mt_accepts(a, secure, leaves, t, r1, e), mt_accepts(a, secure, leaves, u, r2, f), same_shape(steps_of(e), steps_of(f)),
        folded(a, leafval(a, secure, t), steps_of(e)), folded(a, leafval(a, secure, u), steps_of(f)),
        secure ==> HU(a, t) && HU(a, u),
    ensures t == u
{
    broadcast use ax_hf_no_collision;
    lemma_fold_inj(a, leafval(a, secure, t), leafval(a, secure, u), steps_of(e), steps_of(f));
}
} // verus!
