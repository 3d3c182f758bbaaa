//! The extended trie: a data storage next to a trie of references to the data.
#![allow(unused_imports)]
use vstd::prelude::*;
use crate::base::*;
use crate::nib::*;
use crate::codec::*;
use crate::tree::*;
use crate::trie::*;
use crate::mpt::*;
use crate::serial::*;
use crate::refs::*;
verus! {

/// stored values: bytes, bytearrays, objects with an RLP encoder
pub enum Val { B(Seq<int>), A(Seq<int>), O(int) }
/// what encode_rlp() of an object returns
pub uninterp spec fn oenc(o: int) -> Seq<int>;
pub broadcast axiom fn ax_oenc(o: int)
    ensures is_bytes(#[trigger] oenc(o));
/// the bytes a value stands for
pub open spec fn vbytes(v: Val) -> Seq<int> { match v { Val::B(b) => b, Val::A(b) => b, Val::O(o) => oenc(o) } }

pub open spec fn val_ok(v: Val) -> bool { match v { Val::B(b) => is_bytes(b), Val::A(b) => is_bytes(b), Val::O(o) => true } }
pub open spec fn vals_ok(ds: Map<Seq<int>, Val>) -> bool { forall|k: Seq<int>| #[trigger] ds.dom().contains(k) ==> val_ok(ds[k]) }

/// the data a stored reference refers to
pub open spec fn refdata(b: Seq<int>) -> Seq<int> { unrlp(b)->L_0[2]->S_0 }
/// every value of the trie is a reference for its own key
pub open spec fn erefs_ok(sec: bool, r: Option<Seq<int>>) -> bool {
    forall|k: Seq<int>| keyok(sec, k) ==> match #[trigger] content(sec, r, k) { None => true, Some(v) => is_bytes(refdata(v)) && v == dref(k, refdata(v)) }
}
/// the reference expected for a key
pub open spec fn want(ds: Map<Seq<int>, Val>, k: Seq<int>) -> Option<Seq<int>> {
    if ds.dom().contains(k) { Some(dref(k, vbytes(ds[k]))) } else { None }
}
/// the trie holds exactly the references to the stored data
pub open spec fn emap_ok(sec: bool, r: Option<Seq<int>>, ds: Map<Seq<int>, Val>) -> bool {
    &&& forall|k: Seq<int>| keyok(sec, k) ==> #[trigger] content(sec, r, k) == want(ds, k)
    &&& forall|k: Seq<int>| #[trigger] ds.dom().contains(k) ==> keyok(sec, k) && is_bytes(vbytes(ds[k]))
}
/// the trie and the data storage have the same keys
pub open spec fn keys_ok(sec: bool, r: Option<Seq<int>>, ds: Map<Seq<int>, Val>) -> bool {
    &&& forall|k: Seq<int>| keyok(sec, k) ==> ((#[trigger] content(sec, r, k)) is Some <==> ds.dom().contains(k))
    &&& forall|k: Seq<int>| #[trigger] ds.dom().contains(k) ==> keyok(sec, k)
}
pub proof fn lemma_emap_keys(sec: bool, r: Option<Seq<int>>, ds: Map<Seq<int>, Val>)
    ensures emap_ok(sec, r, ds) ==> keys_ok(sec, r, ds)
{
    if emap_ok(sec, r, ds) {
        assert forall|k: Seq<int>| keyok(sec, k) implies ((#[trigger] content(sec, r, k)) is Some <==> ds.dom().contains(k)) by { assert(content(sec, r, k) == want(ds, k)); }
    }
}
pub proof fn lemma_emap_refs(sec: bool, r: Option<Seq<int>>, ds: Map<Seq<int>, Val>)
    ensures emap_ok(sec, r, ds) ==> erefs_ok(sec, r)
{
    if emap_ok(sec, r, ds) {
        assert forall|k: Seq<int>| keyok(sec, k) implies match #[trigger] content(sec, r, k) { None => true, Some(v) => is_bytes(refdata(v)) && v == dref(k, refdata(v)) } by {
            assert(content(sec, r, k) == want(ds, k));
            if ds.dom().contains(k) { lemma_dref(k, vbytes(ds[k])); }
        }
    }
}
pub proof fn lemma_dref_injs()
    ensures forall|k: Seq<int>, d: Seq<int>, k2: Seq<int>, d2: Seq<int>| is_bytes(k) && is_bytes(d) && is_bytes(k2) && is_bytes(d2)
        && #[trigger] dref(k, d) == #[trigger] dref(k2, d2) ==> k == k2 && d == d2
{
    assert forall|k: Seq<int>, d: Seq<int>, k2: Seq<int>, d2: Seq<int>| is_bytes(k) && is_bytes(d) && is_bytes(k2) && is_bytes(d2)
        && #[trigger] dref(k, d) == #[trigger] dref(k2, d2) implies k == k2 && d == d2 by { lemma_dref_inj(k, d, k2, d2); }
}
pub proof fn lemma_refdata(k: Seq<int>, d: Seq<int>)
    ensures is_bytes(k) && is_bytes(d) ==> refdata(dref(k, d)) == d
{
    if is_bytes(k) && is_bytes(d) { lemma_dref(k, d); }
}
/// storing a value under a key in both
pub proof fn lemma_emap_put(sec: bool, r: Option<Seq<int>>, r2: Option<Seq<int>>, ds: Map<Seq<int>, Val>, k: Seq<int>, v: Val)
    ensures emap_ok(sec, r, ds) && keyok(sec, k) && is_bytes(vbytes(v)) && changed(sec, r, r2, k, Some(dref(k, vbytes(v)))) ==> emap_ok(sec, r2, ds.insert(k, v)),
        erefs_ok(sec, r) && keyok(sec, k) && is_bytes(vbytes(v)) && changed(sec, r, r2, k, Some(dref(k, vbytes(v)))) ==> erefs_ok(sec, r2),
        keys_ok(sec, r, ds) && keyok(sec, k) && changed(sec, r, r2, k, Some(dref(k, vbytes(v)))) ==> keys_ok(sec, r2, ds.insert(k, v))
{
    if keys_ok(sec, r, ds) && keyok(sec, k) && changed(sec, r, r2, k, Some(dref(k, vbytes(v)))) {
        let d2 = ds.insert(k, v);
        assert forall|q: Seq<int>| keyok(sec, q) implies ((#[trigger] content(sec, r2, q)) is Some <==> d2.dom().contains(q)) by { let c = content(sec, r, q); }
    }
    if keyok(sec, k) && is_bytes(vbytes(v)) && changed(sec, r, r2, k, Some(dref(k, vbytes(v)))) {
        lemma_refdata(k, vbytes(v));
        if emap_ok(sec, r, ds) {
            let d2 = ds.insert(k, v);
            assert forall|q: Seq<int>| keyok(sec, q) implies #[trigger] content(sec, r2, q) == want(d2, q) by {
                assert(content(sec, r, q) == want(ds, q));
            }
        }
        if erefs_ok(sec, r) {
            assert forall|q: Seq<int>| keyok(sec, q) implies match #[trigger] content(sec, r2, q) { None => true, Some(w) => is_bytes(refdata(w)) && w == dref(q, refdata(w)) } by {
                let c = content(sec, r, q);
            }
        }
    }
}
/// deleting a key from both
pub proof fn lemma_emap_del(sec: bool, r: Option<Seq<int>>, r2: Option<Seq<int>>, ds: Map<Seq<int>, Val>, k: Seq<int>)
    ensures emap_ok(sec, r, ds) && changed(sec, r, r2, k, None) ==> emap_ok(sec, r2, ds.remove(k)),
        erefs_ok(sec, r) && changed(sec, r, r2, k, None) ==> erefs_ok(sec, r2),
        keys_ok(sec, r, ds) && changed(sec, r, r2, k, None) ==> keys_ok(sec, r2, ds.remove(k))
{
    if changed(sec, r, r2, k, None) {
        if keys_ok(sec, r, ds) {
            let d2 = ds.remove(k);
            assert forall|q: Seq<int>| keyok(sec, q) implies ((#[trigger] content(sec, r2, q)) is Some <==> d2.dom().contains(q)) by { let c = content(sec, r, q); }
        }
        if emap_ok(sec, r, ds) {
            let d2 = ds.remove(k);
            assert forall|q: Seq<int>| keyok(sec, q) implies #[trigger] content(sec, r2, q) == want(d2, q) by {
                assert(content(sec, r, q) == want(ds, q));
            }
        }
        if erefs_ok(sec, r) {
            assert forall|q: Seq<int>| keyok(sec, q) implies match #[trigger] content(sec, r2, q) { None => true, Some(w) => is_bytes(refdata(w)) && w == dref(q, refdata(w)) } by {
                let c = content(sec, r, q);
            }
        }
    }
}
/// the same content has the same root, whatever the storage
pub proof fn lemma_same_root(s: Map<Seq<int>, Seq<int>>, r: Option<Seq<int>>, s2: Map<Seq<int>, Seq<int>>, r2: Option<Seq<int>>, sec: bool)
    ensures state(s, r, sec) && state(s2, r2, sec) && same_content(sec, r, r2) ==> rhash(r) == rhash(r2) && troot(r) == troot(r2)
{
    if state(s, r, sec) && state(s2, r2, sec) && same_content(sec, r, r2) {
        let t = troot(r);
        let t2 = troot(r2);
        lemma_troot_ok(s, r);
        lemma_troot_ok(s2, r2);
        lemma_emptyh();
        lemma_krefs();
        assert forall|q: Seq<int>| is_nibs(q) implies #[trigger] lookup(t, q) == lookup(t2, q) by {
            if lookup(t, q) is Some || lookup(t2, q) is Some {
                assert(from_key(sec, q));
                let k = choose|k: Seq<int>| #[trigger] keyok(sec, k) && keyp(sec, k) == q;
                assert(content(sec, r, k) == content(sec, r2, k));
            }
        }
        lemma_canonical(t, t2);
        match (r, r2) {
            (Some(b), Some(b2)) => {
                if kref(b) && kref(b2) { assert(tref(tree_of(b)) == b && tref(tree_of(b2)) == b2); }
            }
            _ => {}
        }
    }
}
/// two tries with the references to the same data have the same root
pub proof fn lemma_same_data(s: Map<Seq<int>, Seq<int>>, r: Option<Seq<int>>, s2: Map<Seq<int>, Seq<int>>, r2: Option<Seq<int>>, sec: bool, ds: Map<Seq<int>, Val>)
    ensures state(s, r, sec) && state(s2, r2, sec) && emap_ok(sec, r, ds) && emap_ok(sec, r2, ds) ==> rhash(r) == rhash(r2) && troot(r) == troot(r2)
{
    if state(s, r, sec) && state(s2, r2, sec) && emap_ok(sec, r, ds) && emap_ok(sec, r2, ds) {
        assert forall|k: Seq<int>| keyok(sec, k) implies #[trigger] content(sec, r, k) == content(sec, r2, k) by { assert(content(sec, r2, k) == want(ds, k)); }
        lemma_same_root(s, r, s2, r2, sec);
    }
}
/// the same update keeps two tries equal
pub proof fn lemma_same_update(s: Map<Seq<int>, Seq<int>>, r: Option<Seq<int>>, s2: Map<Seq<int>, Seq<int>>, r2: Option<Seq<int>>, p: Option<Seq<int>>, p2: Option<Seq<int>>, sec: bool, k: Seq<int>, v: Option<Seq<int>>)
    requires same_content(sec, p, p2), changed(sec, p, r, k, v), changed(sec, p2, r2, k, v), state(s, r, sec), state(s2, r2, sec)
    ensures same_content(sec, r, r2), rhash(r) == rhash(r2), troot(r) == troot(r2)
{
    assert forall|q: Seq<int>| keyok(sec, q) implies #[trigger] content(sec, r, q) == content(sec, r2, q) by {
        assert(content(sec, p, q) == content(sec, p2, q));
        assert(content(sec, r2, q) == put(content(sec, p2, q), k, q, v));
    }
    lemma_same_root(s, r, s2, r2, sec);
}
/// a view keeps root hash and content
pub proof fn lemma_view(sec: bool, r: Option<Seq<int>>)
    ensures rhash(Some(root_or_empty(r))) == rhash(r), troot(Some(root_or_empty(r))) == troot(r), same_content(sec, r, Some(root_or_empty(r)))
{
    lemma_emptyh();
}
/// the data taken from the storage so far
pub open spec fn part_of<V>(ks: Seq<Seq<int>>, ds: Map<Seq<int>, V>, n: int) -> Map<Seq<int>, V>
    decreases n
{
    if n <= 0 { Map::empty() } else { part_of(ks, ds, n - 1).insert(ks[n - 1], ds[ks[n - 1]]) }
}
pub proof fn lemma_part_dom<V>(ks: Seq<Seq<int>>, ds: Map<Seq<int>, V>, n: int)
    requires n <= ks.len()
    ensures forall|k: Seq<int>| #[trigger] part_of(ks, ds, n).dom().contains(k) <==> exists|j: int| 0 <= j < n && ks[j] == k,
        forall|k: Seq<int>| #[trigger] part_of(ks, ds, n).dom().contains(k) ==> part_of(ks, ds, n)[k] == ds[k]
    decreases n
{
    if n > 0 {
        lemma_part_dom(ks, ds, n - 1);
        let p = part_of(ks, ds, n - 1);
        let q = part_of(ks, ds, n);
        assert forall|k: Seq<int>| #[trigger] q.dom().contains(k) <==> exists|j: int| 0 <= j < n && ks[j] == k by {
            if q.dom().contains(k) {
                if k == ks[n - 1] { } else { assert(p.dom().contains(k)); }
            }
            if exists|j: int| 0 <= j < n && ks[j] == k {
                let j = choose|j: int| 0 <= j < n && ks[j] == k;
                if j < n - 1 { assert(p.dom().contains(k)); }
            }
        }
        assert forall|k: Seq<int>| #[trigger] q.dom().contains(k) implies q[k] == ds[k] by {
            if k != ks[n - 1] { assert(p.dom().contains(k)); }
        }
    }
}
/// all keys taken: all the data
pub proof fn lemma_part_all<V>(ks: Seq<Seq<int>>, ds: Map<Seq<int>, V>)
    requires enumerates(ks, ds.dom())
    ensures part_of(ks, ds, ks.len() as int) == ds
{
    lemma_part_dom(ks, ds, ks.len() as int);
    let p = part_of(ks, ds, ks.len() as int);
    assert forall|k: Seq<int>| p.dom().contains(k) <==> ds.dom().contains(k) by { }
    assert(p.dom() =~= ds.dom());
    assert(p =~= ds);
}
pub proof fn lemma_parts<V>(ds: Map<Seq<int>, V>)
    ensures forall|ks: Seq<Seq<int>>, n: int| #![trigger part_of(ks, ds, n)] (n == 0 ==> part_of(ks, ds, n) == Map::<Seq<int>, V>::empty())
        && (enumerates(ks, ds.dom()) && n == ks.len() ==> part_of(ks, ds, n) == ds),
        forall|ks: Seq<Seq<int>>, n: int| #![trigger part_of(ks, ds, n), ks[n]] 0 <= n ==> part_of(ks, ds, n + 1) == part_of(ks, ds, n).insert(ks[n], ds[ks[n]])
{
    assert forall|ks: Seq<Seq<int>>, n: int| #![trigger part_of(ks, ds, n)] (n == 0 ==> part_of(ks, ds, n) == Map::<Seq<int>, V>::empty())
        && (enumerates(ks, ds.dom()) && n == ks.len() ==> part_of(ks, ds, n) == ds) by {
        if enumerates(ks, ds.dom()) && n == ks.len() { lemma_part_all(ks, ds); }
    }
}
/// what is left when keys are removed one by one
pub open spec fn removed<V>(ks: Seq<Seq<int>>, s: Map<Seq<int>, V>, n: int) -> Map<Seq<int>, V>
    decreases n
{
    if n <= 0 { s } else { removed(ks, s, n - 1).remove(ks[n - 1]) }
}
pub proof fn lemma_removed_dom<V>(ks: Seq<Seq<int>>, s: Map<Seq<int>, V>, n: int)
    requires 0 <= n <= ks.len()
    ensures forall|k: Seq<int>| #[trigger] removed(ks, s, n).dom().contains(k) <==> s.dom().contains(k) && !ks.subrange(0, n).contains(k)
    decreases n
{
    if n > 0 {
        lemma_removed_dom(ks, s, n - 1);
        let a = ks.subrange(0, n - 1);
        let b = ks.subrange(0, n);
        assert(b =~= a.push(ks[n - 1]));
        assert forall|k: Seq<int>| #[trigger] removed(ks, s, n).dom().contains(k) <==> s.dom().contains(k) && !b.contains(k) by {
            if a.contains(k) { let j = choose|j: int| 0 <= j < a.len() && a[j] == k; assert(b[j] == k); }
            assert(b[n - 1] == ks[n - 1]);
            if b.contains(k) && k != ks[n - 1] { let j = choose|j: int| 0 <= j < b.len() && b[j] == k; assert(a[j] == k); }
            assert(removed(ks, s, n - 1).dom().contains(k) <==> s.dom().contains(k) && !a.contains(k));
        }
    }
}
pub proof fn lemma_removed<V>(s: Map<Seq<int>, V>)
    ensures forall|ks: Seq<Seq<int>>, n: int| #![trigger removed(ks, s, n)] (n == 0 ==> removed(ks, s, n) == s)
        && (enumerates(ks, s.dom()) && n == ks.len() ==> removed(ks, s, n) == Map::<Seq<int>, V>::empty()),
        forall|ks: Seq<Seq<int>>, n: int| #![trigger removed(ks, s, n), ks[n]] 0 <= n < ks.len() && enumerates(ks, s.dom())
            ==> removed(ks, s, n + 1) == removed(ks, s, n).remove(ks[n]) && removed(ks, s, n).dom().contains(ks[n])
{
    assert forall|ks: Seq<Seq<int>>, n: int| #![trigger removed(ks, s, n)] (n == 0 ==> removed(ks, s, n) == s)
        && (enumerates(ks, s.dom()) && n == ks.len() ==> removed(ks, s, n) == Map::<Seq<int>, V>::empty()) by {
        if enumerates(ks, s.dom()) && n == ks.len() {
            lemma_removed_dom(ks, s, n);
            assert(ks.subrange(0, n) =~= ks);
            let m = removed(ks, s, n);
            assert forall|k: Seq<int>| !m.dom().contains(k) by {
                if m.dom().contains(k) {
                    let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k;
                    assert(ks.subrange(0, n)[j] == k);
                }
            }
            assert(m =~= Map::<Seq<int>, V>::empty());
        }
    }
    assert forall|ks: Seq<Seq<int>>, n: int| #![trigger removed(ks, s, n), ks[n]] 0 <= n < ks.len() && enumerates(ks, s.dom())
            implies removed(ks, s, n + 1) == removed(ks, s, n).remove(ks[n]) && removed(ks, s, n).dom().contains(ks[n]) by {
        lemma_removed_dom(ks, s, n);
        let a = ks.subrange(0, n);
        if a.contains(ks[n]) {
            let j = choose|j: int| 0 <= j < a.len() && a[j] == ks[n];
            assert(ks[j] == ks[n]);
        }
    }
}
/// the references to one more value
pub proof fn lemma_part_step(ds: Map<Seq<int>, Val>)
    ensures forall|sec: bool, r: Option<Seq<int>>, r2: Option<Seq<int>>, ks: Seq<Seq<int>>, n: int|
        #![trigger changed(sec, r, r2, ks[n], Some(dref(ks[n], vbytes(ds[ks[n]])))), part_of(ks, ds, n)]
        0 <= n && emap_ok(sec, r, part_of(ks, ds, n)) && keyok(sec, ks[n]) && is_bytes(vbytes(ds[ks[n]]))
        && changed(sec, r, r2, ks[n], Some(dref(ks[n], vbytes(ds[ks[n]])))) ==> emap_ok(sec, r2, part_of(ks, ds, n + 1))
{
    assert forall|sec: bool, r: Option<Seq<int>>, r2: Option<Seq<int>>, ks: Seq<Seq<int>>, n: int|
        #![trigger changed(sec, r, r2, ks[n], Some(dref(ks[n], vbytes(ds[ks[n]])))), part_of(ks, ds, n)]
        0 <= n && emap_ok(sec, r, part_of(ks, ds, n)) && keyok(sec, ks[n]) && is_bytes(vbytes(ds[ks[n]]))
        && changed(sec, r, r2, ks[n], Some(dref(ks[n], vbytes(ds[ks[n]])))) implies emap_ok(sec, r2, part_of(ks, ds, n + 1)) by {
        lemma_emap_put(sec, r, r2, part_of(ks, ds, n), ks[n], ds[ks[n]]);
    }
}
/// nothing is stored in a new trie
pub proof fn lemma_empty_emap(sec: bool)
    ensures state(Map::empty(), Some(emptyh()), sec), emap_ok(sec, Some(emptyh()), Map::empty()), troot(Some(emptyh())) is Nil
{
    lemma_emptyh();
}
} // verus!
