//! Nibble paths: the sequence of half-bytes of `data` after skipping `offset` of them.
#![allow(unused_imports)]
use vstd::prelude::*;
use crate::base::*;
verus! {

pub open spec fn nib(data: Seq<int>, i: int) -> int { if i % 2 == 0 { data[i / 2] / 16 } else { data[i / 2] % 16 } }
pub open spec fn np(data: Seq<int>, offset: int) -> Seq<int> {
    Seq::new((2 * data.len() - offset) as nat, |i: int| nib(data, i + offset))
}
pub open spec fn np_ok(data: Seq<int>, offset: int) -> bool {
    is_bytes(data) && 0 <= offset <= 2 * data.len()
}
pub open spec fn is_nibs(p: Seq<int>) -> bool { forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < 16 }
/// the nibbles of a key
pub open spec fn nibs(key: Seq<int>) -> Seq<int> { np(key, 0) }

/// the longest common prefix length, characterised
pub open spec fn is_common(a: Seq<int>, b: Seq<int>, n: int) -> bool {
    &&& 0 <= n <= a.len() && n <= b.len()
    &&& forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i]
    &&& (n < a.len() && n < b.len() ==> a[n] != b[n])
}
pub open spec fn clen(a: Seq<int>, b: Seq<int>) -> int decreases a.len() {
    if a.len() == 0 || b.len() == 0 || a[0] != b[0] { 0 }
    else { 1 + clen(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)) }
}
pub open spec fn cprefix(a: Seq<int>, b: Seq<int>) -> Seq<int> { a.subrange(0, clen(a, b)) }
pub open spec fn is_prefix(p: Seq<int>, s: Seq<int>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) =~= p }
pub open spec fn drop(s: Seq<int>, n: int) -> Seq<int> { s.subrange(n, s.len() as int) }

pub proof fn lemma_clen(a: Seq<int>, b: Seq<int>)
    ensures is_common(a, b, clen(a, b))
    decreases a.len()
{
    if a.len() == 0 || b.len() == 0 || a[0] != b[0] {
    } else {
        let a1 = a.subrange(1, a.len() as int);
        let b1 = b.subrange(1, b.len() as int);
        lemma_clen(a1, b1);
        let n = clen(a1, b1);
        assert forall|i: int| 0 <= i < n + 1 implies #[trigger] a[i] == b[i] by {
            if i > 0 { assert(a1[i - 1] == b1[i - 1]); }
        }
        if n + 1 < a.len() && n + 1 < b.len() { assert(a1[n] != b1[n]); }
    }
}
pub proof fn lemma_common_unique(a: Seq<int>, b: Seq<int>, n: int)
    requires is_common(a, b, n)
    ensures n == clen(a, b)
{
    lemma_clen(a, b);
    let m = clen(a, b);
    if n < m { assert(a[n] == b[n]); }
    if m < n { assert(a[m] == b[m]); }
}
/// the common prefix does not depend on which sequence is asked for it
pub broadcast proof fn lemma_cprefix_sym(a: Seq<int>, b: Seq<int>)
    ensures #[trigger] cprefix(a, b) == cprefix(b, a)
{
    lemma_clen(a, b);
    lemma_clen(b, a);
    lemma_common_unique(a, b, clen(b, a));
    assert(cprefix(a, b) =~= cprefix(b, a));
}
pub proof fn lemma_np_nibs(data: Seq<int>, offset: int)
    requires np_ok(data, offset)
    ensures is_nibs(np(data, offset)), np(data, offset).len() == 2 * data.len() - offset
{
    assert forall|i: int| 0 <= i < np(data, offset).len() implies 0 <= #[trigger] np(data, offset)[i] < 16 by {
        let k = i + offset;
        assert(0 <= data[k / 2] < 256);
    }
}

pub proof fn lemma_np_if(data: Seq<int>, offset: int)
    ensures np_ok(data, offset) ==> is_nibs(np(data, offset))
{
    if np_ok(data, offset) { lemma_np_nibs(data, offset); }
}

// ---------------------------------------------------------------- hex-prefix encoding
pub open spec fn hp_flag(p: Seq<int>, leaf: bool) -> int {
    (if leaf { 32int } else { 0int }) + (if p.len() % 2 == 1 { 16 + p[0] } else { 0int })
}
pub open spec fn hp(p: Seq<int>, leaf: bool) -> Seq<int> {
    Seq::new(1 + p.len() / 2, |i: int| if i == 0 { hp_flag(p, leaf) }
        else { p[2 * (i - 1) + p.len() % 2] * 16 + p[2 * (i - 1) + p.len() % 2 + 1] })
}
pub open spec fn hp_leaf(d: Seq<int>) -> bool { (d[0] / 32) % 2 == 1 }
pub open spec fn hp_off(d: Seq<int>) -> int { if (d[0] / 16) % 2 == 1 { 1 } else { 2 } }
pub open spec fn hp_path(d: Seq<int>) -> Seq<int> { np(d, hp_off(d)) }

/// decoding an encoded path gives back the path and the flag
pub proof fn lemma_hp_roundtrip(p: Seq<int>, leaf: bool)
    requires is_nibs(p)
    ensures
        is_bytes(hp(p, leaf)), hp(p, leaf).len() >= 1,
        hp_leaf(hp(p, leaf)) == leaf,
        hp_path(hp(p, leaf)) =~= p,
{
    let d = hp(p, leaf);
    assert(d[0] == hp_flag(p, leaf));
    let odd = p.len() % 2;
    if odd == 1 { assert(0 <= p[0] < 16); }
    assert forall|i: int| 0 <= i < d.len() implies 0 <= #[trigger] d[i] < 256 by {
        if i > 0 {
            assert(0 <= p[2 * (i - 1) + odd] < 16);
            assert(0 <= p[2 * (i - 1) + odd + 1] < 16);
        }
    }
    let q = hp_path(d);
    let o = hp_off(d);
    assert(o == 2 - odd);
    assert(q.len() == p.len());
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] q[i] == p[i] by {
        let k = i + o;
        assert(q[i] == nib(d, k));
        assert(0 <= p[i] < 16);
        if k / 2 == 0 {
        } else {
            let j = k / 2;
            assert(2 * (j - 1) + odd == i - (k % 2)) by {
                assert(k == 2 * j + k % 2);
            }
            assert(0 <= p[2 * (j - 1) + odd] < 16);
            assert(0 <= p[2 * (j - 1) + odd + 1] < 16);
        }
    }
}
} // verus!
