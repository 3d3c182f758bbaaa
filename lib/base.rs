//! Mathematical vocabulary shared by all contracts: bytes, Python indexing and ranges.
#![allow(unused_imports)]
use vstd::prelude::*;
verus! {

pub open spec fn is_bytes(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < 256 }
pub open spec fn all_bytes(s: Seq<Seq<int>>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_bytes(#[trigger] s[i]) }
pub open spec fn is_ascii(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < 128 }
pub open spec fn map_bytes(m: Map<Seq<int>, Seq<int>>) -> bool {
    forall|k: Seq<int>| #[trigger] m.dom().contains(k) ==> is_bytes(k) && is_bytes(m[k])
}
pub open spec fn map_keys<V>(m: Map<Seq<int>, V>) -> bool {
    forall|k: Seq<int>| #[trigger] m.dom().contains(k) ==> is_bytes(k)
}

// ---------------------------------------------------------------- Python sequences
pub open spec fn pyidx(i: int, n: int) -> int { if i < 0 { i + n } else { i } }
pub open spec fn clampu(i: int, n: int) -> int { if i < 0 { 0 } else if i > n { n } else { i } }
pub open spec fn clampn(i: int, n: int) -> int { if i < 0 { if i + n < 0 { 0 } else { i + n } } else if i > n { n } else { i } }
pub open spec fn clampi(i: int, n: int) -> int { clampn(i, n) }
pub open spec fn pyslice<A>(s: Seq<A>, a: int, b: int) -> Seq<A> {
    let n = s.len() as int;
    let lo = clampn(a, n);
    let hi = clampn(b, n);
    if lo <= hi { s.subrange(lo, hi) } else { Seq::empty() }
}
/// A slice of a slice is a slice.
pub broadcast proof fn lemma_slice_twice<A>(s: Seq<A>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a,
    ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d),
{
    assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d));
}
pub open spec fn range_len(lo: int, hi: int) -> int { if hi > lo { hi - lo } else { 0 } }
pub open spec fn range_len_step(lo: int, hi: int, step: int) -> int { if hi > lo { (hi - lo + step - 1) / step } else { 0 } }
pub open spec fn step_slice<A>(s: Seq<A>, a: int, b: int, step: int) -> Seq<A> {
    let n = s.len() as int;
    let lo = clampn(a, n);
    let hi = clampn(b, n);
    Seq::new(range_len_step(lo, hi, step) as nat, |i: int| s[lo + i * step])
}
pub open spec fn min2(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn max2(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn sum_int(s: Seq<int>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { sum_int(s.drop_last()) + s.last() }
}
pub open spec fn concat_all(s: Seq<Seq<int>>) -> Seq<int> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { concat_all(s.drop_last()) + s.last() }
}
pub proof fn lemma_concat(s: Seq<Seq<int>>)
    ensures s.subrange(0, s.len() as int) == s, concat_all(s.subrange(0, 0)) == Seq::<int>::empty(),
        forall|i: int| 0 <= i < s.len() ==> concat_all(s.subrange(0, i + 1)) == concat_all(s.subrange(0, i)) + #[trigger] s[i],
{
    assert(s.subrange(0, s.len() as int) =~= s);
    assert forall|i: int| 0 <= i < s.len() implies concat_all(s.subrange(0, i + 1)) == concat_all(s.subrange(0, i)) + #[trigger] s[i] by {
        assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i));
    }
}
pub open spec fn enumerates<K>(ks: Seq<K>, d: Set<K>) -> bool {
    &&& forall|i: int| 0 <= i < ks.len() ==> d.contains(#[trigger] ks[i])
    &&& forall|k: K| #[trigger] d.contains(k) ==> exists|i: int| 0 <= i < ks.len() && ks[i] == k
    &&& forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < ks.len() && i != j ==> #[trigger] ks[i] != #[trigger] ks[j]
}

pub proof fn lemma_enumerates<K>(ks: Seq<K>, d: Set<K>)
    ensures enumerates(ks, d) ==> ((ks.len() == 0) == (d =~= Set::<K>::empty()))
{
    if enumerates(ks, d) && ks.len() > 0 { assert(d.contains(ks[0])); }
}
/// trigger of quantifiers without a natural one
pub open spec fn tg(i: int) -> bool { true }

// bit operations on non-constant operands: only what the front end states about them is known
pub uninterp spec fn band(a: int, b: int) -> int;
pub uninterp spec fn bxor(a: int, b: int) -> int;
pub uninterp spec fn bor_signed(a: int, b: int) -> int;
// the bitwise or of numbers that are not negative, bit by bit
#[verifier::opaque]
pub open spec fn bor(a: int, b: int) -> int decreases a {
    if a < 0 || b < 0 { bor_signed(a, b) }
    else if a == 0 { b }
    else { 2 * bor(a / 2, b / 2) + if a % 2 == 1 || b % 2 == 1 { 1int } else { 0int } }
}
pub open spec fn two_to(k: nat) -> int decreases k { if k == 0 { 1 } else { 2 * two_to((k - 1) as nat) } }
pub proof fn lemma_bor_apart(a: int, b: int, k: nat)
    requires 0 <= a, 0 <= b < two_to(k), a % two_to(k) == 0
    ensures bor(a, b) == a + b, bor(b, a) == a + b
    decreases k
{
    reveal_with_fuel(bor, 2);
    if k == 0 {
        if a > 0 { lemma_bor_zero(a); }
    } else {
        let m = two_to((k - 1) as nat);
        let q = a / (2 * m);
        lemma_two_to((k - 1) as nat);
        assert(a == (2 * m) * q) by (nonlinear_arith) requires a % (2 * m) == 0, q == a / (2 * m), m > 0;
        assert(a == 2 * (m * q)) by (nonlinear_arith) requires a == (2 * m) * q;
        assert(a / 2 == m * q);
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q, m);
        assert(m * q == q * m) by (nonlinear_arith);
        lemma_bor_apart(a / 2, b / 2, (k - 1) as nat);
    }
}
pub proof fn lemma_bor_zero(a: int)
    requires 0 <= a
    ensures bor(a, 0) == a, bor(0, a) == a
    decreases a
{
    reveal_with_fuel(bor, 2);
    if a > 0 { lemma_bor_zero(a / 2); }
}
pub proof fn lemma_two_to(k: nat) ensures two_to(k) > 0 decreases k { if k > 0 { lemma_two_to((k - 1) as nat); } }
pub proof fn lemma_bor_below(a: int, b: int, k: nat)
    requires 0 <= a < two_to(k), 0 <= b < two_to(k)
    ensures 0 <= bor(a, b) < two_to(k)
    decreases k
{
    reveal_with_fuel(bor, 2);
    if k > 0 && a > 0 { lemma_bor_below(a / 2, b / 2, (k - 1) as nat); }
}
/// what is used of it: numbers without common bits add up, bytes give bytes
pub broadcast proof fn lemma_bor(a: int, b: int)
    ensures 0 <= a && 0 <= b ==> {
        &&& a % 16 == 0 && b < 16 ==> #[trigger] bor(a, b) == a + b
        &&& b % 16 == 0 && a < 16 ==> bor(a, b) == a + b
        &&& a % 32 == 0 && b < 32 ==> bor(a, b) == a + b
        &&& b % 32 == 0 && a < 32 ==> bor(a, b) == a + b
        &&& a % 256 == 0 && b < 256 ==> bor(a, b) == a + b
        &&& b % 256 == 0 && a < 256 ==> bor(a, b) == a + b
        &&& a < 16 && b < 16 ==> 0 <= bor(a, b) < 16
        &&& a < 256 && b < 256 ==> 0 <= bor(a, b) < 256
    }
{
    if 0 <= a && 0 <= b {
        assert(two_to(4) == 16 && two_to(5) == 32 && two_to(8) == 256) by (compute);
        if a % 16 == 0 && b < 16 { lemma_bor_apart(a, b, 4); }
        if b % 16 == 0 && a < 16 { lemma_bor_apart(b, a, 4); }
        if a % 32 == 0 && b < 32 { lemma_bor_apart(a, b, 5); }
        if b % 32 == 0 && a < 32 { lemma_bor_apart(b, a, 5); }
        if a % 256 == 0 && b < 256 { lemma_bor_apart(a, b, 8); }
        if b % 256 == 0 && a < 256 { lemma_bor_apart(b, a, 8); }
        if a < 16 && b < 16 { lemma_bor_below(a, b, 4); }
        if a < 256 && b < 256 { lemma_bor_below(a, b, 8); }
    }
}

} // verus!
