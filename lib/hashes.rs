//! Named hash functions (SHA-2, SHA-3, MD5).
#![allow(unused_imports)]
use vstd::prelude::*;
use crate::base::*;
verus! {

/// digest of b under the algorithm with that name, and its length
pub uninterp spec fn hf(alg: Seq<int>, b: Seq<int>) -> Seq<int>;
pub uninterp spec fn hlen(alg: Seq<int>) -> nat;
/// the strings hashed in the history under consideration: no two of them collide
pub uninterp spec fn HU(alg: Seq<int>, b: Seq<int>) -> bool;
pub open spec fn alg_sha256() -> Seq<int> { seq![115int, 104int, 97int, 50int, 53int, 54int] }
pub open spec fn alg_sha512() -> Seq<int> { seq![115int, 104int, 97int, 53int, 49int, 50int] }
pub open spec fn alg_md5() -> Seq<int> { seq![109int, 100int, 53int] }
pub open spec fn alg_sha224() -> Seq<int> { seq![115int, 104int, 97int, 50int, 50int, 52int] }
pub open spec fn alg_sha384() -> Seq<int> { seq![115int, 104int, 97int, 51int, 56int, 52int] }
pub open spec fn alg_sha3(t: Seq<int>) -> Seq<int> { seq![115int, 104int, 97int, 51int, 95int] + t }
pub open spec fn known_alg(a: Seq<int>) -> bool {
    ||| a =~= alg_sha256() ||| a =~= alg_sha512() ||| a =~= alg_md5() ||| a =~= alg_sha224() ||| a =~= alg_sha384()
    ||| a =~= alg_sha3(seq![50int, 53int, 54int]) ||| a =~= alg_sha3(seq![50int, 50int, 52int])
    ||| a =~= alg_sha3(seq![51int, 56int, 52int]) ||| a =~= alg_sha3(seq![53int, 49int, 50int])
}
pub broadcast axiom fn ax_hf_len(alg: Seq<int>, b: Seq<int>)
    ensures (#[trigger] hf(alg, b)).len() == hlen(alg), hlen(alg) > 0, is_bytes(hf(alg, b));
pub broadcast axiom fn ax_hf_no_collision(alg: Seq<int>, a: Seq<int>, b: Seq<int>)
    requires #[trigger] HU(alg, a), #[trigger] HU(alg, b), hf(alg, a) == hf(alg, b)
    ensures a == b;
} // verus!
