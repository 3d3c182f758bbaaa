//! Text: code points, UTF-8, prefixes and the index of an element.
#![allow(unused_imports)]
use vstd::prelude::*;
use crate::base::*;
use crate::codec::*;
verus! {

/// bytes.decode() / str.encode() (UTF-8)
pub uninterp spec fn utf8_ok(b: Seq<int>) -> bool;
pub uninterp spec fn utf8_dec(b: Seq<int>) -> Seq<int>;
/// text that str.encode() accepts (no lone surrogates)
pub uninterp spec fn text_ok(t: Seq<int>) -> bool;
pub uninterp spec fn utf8_enc(t: Seq<int>) -> Seq<int>;
pub uninterp spec fn str_lower(t: Seq<int>) -> Seq<int>;

pub broadcast axiom fn ax_ascii_dec(b: Seq<int>)
    requires is_ascii(b)
    ensures #![trigger utf8_ok(b)] #![trigger utf8_dec(b)] utf8_ok(b), utf8_dec(b) == b;
pub broadcast axiom fn ax_ascii_enc(t: Seq<int>)
    requires is_ascii(t)
    ensures #![trigger utf8_enc(t)] #![trigger text_ok(t)] text_ok(t), utf8_enc(t) == t;
pub broadcast axiom fn ax_utf8_dec(b: Seq<int>)
    requires is_bytes(b), utf8_ok(b)
    ensures #![trigger utf8_dec(b)] text_ok(utf8_dec(b)), utf8_enc(utf8_dec(b)) == b;
pub broadcast axiom fn ax_utf8_enc(t: Seq<int>)
    requires text_ok(t)
    ensures #![trigger utf8_enc(t)] is_bytes(utf8_enc(t)), utf8_ok(utf8_enc(t)), utf8_dec(utf8_enc(t)) == t;

pub open spec fn starts_with_seq<A>(s: Seq<A>, p: Seq<A>) -> bool { s.len() >= p.len() && s.subrange(0, p.len() as int) =~= p }
pub open spec fn has_infix<A>(s: Seq<A>, p: Seq<A>) -> bool {
    exists|i: int| 0 <= i <= s.len() - p.len() && #[trigger] s.subrange(i, i + p.len()) =~= p
}
/// the index of the first element equal to x
pub open spec fn first_index<A>(s: Seq<A>, x: A, i: int) -> bool {
    0 <= i < s.len() && s[i] == x && forall|j: int| 0 <= j < i ==> #[trigger] s[j] != x
}
pub proof fn lemma_hexs(b: Seq<int>)
    requires is_bytes(b)
    ensures is_ascii(hexs(b)), is_bytes(hexs(b)), hexs(b).len() == 2 * b.len(), hex_ok(hexs(b)), unhex(hexs(b)) == b
{
    broadcast use ax_unhex;
    assert forall|i: int| 0 <= i < hexs(b).len() implies 0 <= #[trigger] hexs(b)[i] < 128 && hexs(b)[i] < 256 by {
        let v = b[i / 2];
        assert(0 <= v < 256);
        assert(0 <= v / 16 < 16 && 0 <= v % 16 < 16) by(nonlinear_arith) requires 0 <= v < 256;
    }
}
pub broadcast proof fn ax_hexs(b: Seq<int>)
    ensures #![trigger hexs(b)] is_bytes(b) ==> is_ascii(hexs(b)) && is_bytes(hexs(b)) && hexs(b).len() == 2 * b.len() && hex_ok(hexs(b)) && unhex(hexs(b)) == b
{
    if is_bytes(b) { lemma_hexs(b); }
}
pub proof fn lemma_hexs_inj(a: Seq<int>, b: Seq<int>)
    requires is_bytes(a), is_bytes(b), hexs(a) == hexs(b)
    ensures a == b
{
    broadcast use ax_unhex;
    assert(unhex(hexs(a)) == a);
    assert(unhex(hexs(b)) == b);
}
} // verus!
