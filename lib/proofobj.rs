//! Proof objects: equality by way of their text, JSON and RLP forms.
#![allow(unused_imports)]
use vstd::prelude::*;
use crate::base::*;
use crate::codec::*;
use crate::text::*;
use crate::merkle::*;
use crate::json::*;
verus! {

/// a Python value whose str() tells it apart from the others: bytes, a tuple, a dictionary (its first entry and the rest)
pub enum PyVal { B(Seq<int>), T(Seq<PyVal>), E, D(Seq<int>, Box<PyVal>, Box<PyVal>) }
/// str() of it
pub uninterp spec fn py_str(v: PyVal) -> Seq<int>;
pub broadcast axiom fn ax_py_str(a: PyVal, b: PyVal)
    requires #[trigger] py_str(a) == #[trigger] py_str(b)
    ensures a == b;
pub open spec fn py_list(l: Seq<Seq<int>>) -> PyVal { PyVal::T(Seq::new(l.len(), |i: int| PyVal::B(l[i]))) }
pub open spec fn py_entry(e: Entry) -> PyVal { match e { Entry::B(b) => PyVal::B(b), Entry::T(l) => py_list(l) } }
pub open spec fn py_entries(l: Seq<Entry>) -> PyVal { PyVal::T(Seq::new(l.len(), |i: int| py_entry(l[i]))) }
proof fn lemma_py_list(a: Seq<Seq<int>>, b: Seq<Seq<int>>)
    ensures py_list(a) == py_list(b) ==> a == b
{
    if py_list(a) == py_list(b) {
        let x = py_list(a)->T_0;
        let y = py_list(b)->T_0;
        assert(a.len() == x.len() && b.len() == y.len());
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(x[i] == PyVal::B(a[i]) && y[i] == PyVal::B(b[i])); }
        assert(a =~= b);
    }
}
proof fn lemma_py_entry(a: Entry, b: Entry)
    ensures py_entry(a) == py_entry(b) ==> a == b
{
    if py_entry(a) == py_entry(b) && a is T && b is T { lemma_py_list(a->T_0, b->T_0); }
}
pub proof fn lemma_py_entries(a: Seq<Entry>, b: Seq<Entry>)
    ensures py_entries(a) == py_entries(b) ==> a == b
{
    if py_entries(a) == py_entries(b) {
        let x = py_entries(a)->T_0;
        let y = py_entries(b)->T_0;
        assert(a.len() == x.len() && b.len() == y.len());
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
            assert(x[i] == py_entry(a[i]) && y[i] == py_entry(b[i]));
            lemma_py_entry(a[i], b[i]);
        }
        assert(a =~= b);
    }
}
/// the numbers made of two keccak digests in hexadecimal are equal only if the strings hashed are
pub proof fn lemma_hash_number(a: Seq<int>, b: Seq<int>)
    ensures U(a) && U(b) && hex_value(hexs(keccak(a))) == hex_value(hexs(keccak(b))) ==> a == b
{
    broadcast use ax_keccak_len, ax_no_collision, ax_hex_value;
    if U(a) && U(b) && hex_value(hexs(keccak(a))) == hex_value(hexs(keccak(b))) { lemma_beval_inj(keccak(a), keccak(b)); }
}
pub proof fn lemma_hash_numbers()
    ensures forall|a: Seq<int>, b: Seq<int>| #![trigger keccak(a), keccak(b)]
        U(a) && U(b) && hex_value(hexs(keccak(a))) == hex_value(hexs(keccak(b))) ==> a == b
{
    assert forall|a: Seq<int>, b: Seq<int>| #![trigger keccak(a), keccak(b)]
        U(a) && U(b) && hex_value(hexs(keccak(a))) == hex_value(hexs(keccak(b))) implies a == b by { lemma_hash_number(a, b); }
}

// ---------------------------------------------------------------- types
pub open spec fn ty_mt() -> Seq<int> { seq![77int, 84int, 45int, 80int, 79int, 73int] }
pub open spec fn ty_poi() -> Seq<int> { seq![77int, 80int, 84int, 45int, 80int, 79int, 73int] }
pub open spec fn ty_poe() -> Seq<int> { seq![77int, 80int, 84int, 45int, 80int, 79int, 69int] }
pub open spec fn known_type(t: Seq<int>) -> bool { t =~= ty_mt() || t =~= ty_poi() || t =~= ty_poe() }
pub proof fn lemma_types()
    ensures
        has_infix(ty_mt(), seq![77int, 84int]), !has_infix(ty_mt(), seq![77int, 80int, 84int]),
        !has_infix(ty_poi(), seq![77int, 84int]), !has_infix(ty_poe(), seq![77int, 84int]),
        has_infix(ty_poi(), seq![77int, 80int, 84int]), has_infix(ty_poe(), seq![77int, 80int, 84int]),
        is_ascii(ty_mt()), is_ascii(ty_poi()), is_ascii(ty_poe()), is_bytes(ty_mt()),
        ty_mt() != ty_poi(), ty_mt() != ty_poe(), ty_poi() != ty_poe(),
        utf8_ok(ty_mt()) && utf8_dec(ty_mt()) == ty_mt(), utf8_ok(ty_poi()) && utf8_dec(ty_poi()) == ty_poi(), utf8_ok(ty_poe()) && utf8_dec(ty_poe()) == ty_poe(),
        text_ok(ty_mt()) && utf8_enc(ty_mt()) == ty_mt(),
{
    broadcast use ax_ascii_dec, ax_ascii_enc;
    assert({ let p = seq![77int, 84int]; ty_mt().subrange(0, (0 + p.len()) as int) =~= p });
    assert({ let p = seq![77int, 80int, 84int]; ty_poi().subrange(0, (0 + p.len()) as int) =~= p });
    assert({ let p = seq![77int, 80int, 84int]; ty_poe().subrange(0, (0 + p.len()) as int) =~= p });
    assert forall|i: int| 0 <= i <= ty_mt().len() - 3 implies !(#[trigger] ty_mt().subrange(i, i + 3) =~= seq![77int, 80int, 84int]) by {
        let s = ty_mt().subrange(i, i + 3);
        assert(s[0] == ty_mt()[i] && s[1] == ty_mt()[i + 1]);
    }
    assert forall|i: int| 0 <= i <= ty_poi().len() - 2 implies !(#[trigger] ty_poi().subrange(i, i + 2) =~= seq![77int, 84int]) by {
        let s = ty_poi().subrange(i, i + 2);
        assert(s[0] == ty_poi()[i] && s[1] == ty_poi()[i + 1]);
    }
    assert forall|i: int| 0 <= i <= ty_poe().len() - 2 implies !(#[trigger] ty_poe().subrange(i, i + 2) =~= seq![77int, 84int]) by {
        let s = ty_poe().subrange(i, i + 2);
        assert(s[0] == ty_poe()[i] && s[1] == ty_poe()[i + 1]);
    }
    assert(ty_mt()[1] == 84 && ty_poi()[1] == 80 && ty_poi()[6] == 73 && ty_poe()[6] == 69 && ty_poe()[1] == 80);
}

// ---------------------------------------------------------------- JSON
pub open spec fn entry_text(e: Entry) -> bool {
    match e { Entry::B(b) => utf8_ok(b), Entry::T(l) => forall|i: int| 0 <= i < l.len() ==> utf8_ok(#[trigger] l[i]) }
}
pub open spec fn entries_text(l: Seq<Entry>) -> bool { forall|i: int| 0 <= i < l.len() ==> entry_text(#[trigger] l[i]) }
/// what a Merkle tree puts into its proofs is text
pub proof fn lemma_tree_text(p: Seq<Step>)
    requires step_text(p)
    ensures entries_text(entries_of(p))
{
    broadcast use ax_ascii_dec;
    assert forall|i: int| 0 <= i < p.len() implies entry_text(#[trigger] entries_of(p)[i]) by {
        assert(is_ascii(p[i].0) && is_ascii(p[i].1));
        let l = entries_of(p)[i]->T_0;
        assert forall|j: int| 0 <= j < l.len() implies utf8_ok(#[trigger] l[j]) by { if j == 0 {} else { assert(j == 1); } }
    }
}
pub open spec fn jentry(e: Entry) -> Json {
    match e { Entry::B(b) => Json::Str(utf8_dec(b)), Entry::T(l) => Json::List(Seq::new(l.len(), |i: int| Json::Str(utf8_dec(l[i])))) }
}
pub open spec fn jentries(l: Seq<Entry>) -> Seq<Json> { Seq::new(l.len(), |i: int| jentry(l[i])) }
pub open spec fn k_type() -> Seq<int> { seq![112int, 114int, 111int, 111int, 102int, 95int, 116int, 121int, 112int, 101int] }
pub open spec fn k_time() -> Seq<int> { seq![116int, 105int, 109int, 101int, 115int, 116int, 97int, 109int, 112int] }
pub open spec fn k_key() -> Seq<int> { seq![116int, 97int, 114int, 103int, 101int, 116int, 95int, 107int, 101int, 121int] }
pub open spec fn k_root() -> Seq<int> { seq![114int, 111int, 111int, 116int, 95int, 104int, 97int, 115int, 104int] }
pub open spec fn k_proof() -> Seq<int> { seq![112int, 114int, 111int, 111int, 102int] }
pub open spec fn is_field(k: Seq<int>) -> bool { k == k_type() || k == k_time() || k == k_key() || k == k_root() || k == k_proof() }
/// the fields can be written as text
pub open spec fn ptext(ty: Seq<int>, ts: Seq<int>, key: Seq<int>, root: Seq<int>, es: Seq<Entry>) -> bool {
    utf8_ok(ty) && utf8_ok(ts) && utf8_ok(key) && utf8_ok(root) && entries_text(es)
}
/// j has the fields of a proof of a Merkle tree, whose fields are these
pub open spec fn pjson(j: Json, ty: Seq<int>, ts: Seq<int>, key: Seq<int>, root: Seq<int>, es: Seq<Entry>) -> bool {
    &&& jhas(j, k_type()) && jget(j, k_type()) == utf8_dec(ty)
    &&& jhas(j, k_time()) && jget(j, k_time()) == utf8_dec(ts)
    &&& jhas(j, k_key()) && jget(j, k_key()) == utf8_dec(key)
    &&& jhas(j, k_root()) && jget(j, k_root()) == utf8_dec(root)
    &&& j is Obj && j->Obj_0.dom().contains(k_proof()) && j->Obj_0[k_proof()] is List && j->Obj_0[k_proof()]->List_0 == jentries(es)
}
pub proof fn lemma_jentries(es: Seq<Entry>)
    ensures entries_text(es) && entries_ok(es) ==> json_text(Json::List(jentries(es)))
{
    broadcast use ax_utf8_dec;
    if entries_text(es) && entries_ok(es) {
        reveal_with_fuel(json_text, 3);
        let l = jentries(es);
        assert forall|i: int| 0 <= i < l.len() implies json_text(#[trigger] l[i]) by {
            let e = es[i];
            assert(entry_text(e) && entry_ok(e));
            if e is T {
                let m = e->T_0;
                let q = l[i]->List_0;
                assert forall|j: int| 0 <= j < q.len() implies json_text(#[trigger] q[j]) by {
                    assert(utf8_ok(m[j]) && is_bytes(m[j]));
                    assert(q[j] == Json::Str(utf8_dec(m[j])));
                }
            }
        }
    }
}
/// j is the JSON value of e
pub open spec fn jsame(j: Json, e: Entry) -> bool {
    match e {
        Entry::B(b) => j == Json::Str(utf8_dec(b)),
        Entry::T(l) => j is List && j->List_0.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> #[trigger] j->List_0[i] == Json::Str(utf8_dec(l[i])),
    }
}
pub proof fn lemma_jsame(es: Seq<Entry>)
    ensures forall|m: Seq<Json>| m.len() == es.len() && (forall|i: int| 0 <= i < m.len() ==> jsame(#[trigger] m[i], es[i])) ==> #[trigger] jlist(m) == Json::List(jentries(es))
{
    assert forall|m: Seq<Json>| m.len() == es.len() && (forall|i: int| 0 <= i < m.len() ==> jsame(#[trigger] m[i], es[i])) implies #[trigger] jlist(m) == Json::List(jentries(es)) by {
        assert forall|i: int| 0 <= i < m.len() implies m[i] == jentries(es)[i] by {
            assert(jsame(m[i], es[i]));
            if es[i] is T { assert(m[i]->List_0 =~= jentry(es[i])->List_0); }
        }
        assert(m =~= jentries(es));
    }
}

/// the first n entries of b are text, and a has their JSON values
pub open spec fn jpart(a: Seq<Json>, b: Seq<Entry>, n: int) -> bool {
    a.len() == n && n <= b.len() && (forall|i: int| 0 <= i < n ==> jsame(#[trigger] a[i], b[i])) && (forall|i: int| 0 <= i < n ==> entry_text(#[trigger] b[i]))
}
pub proof fn lemma_jpart(b: Seq<Entry>)
    ensures forall|a: Seq<Json>| #[trigger] jpart(a, b, b.len() as int) ==> entries_text(b) && jlist(a) == Json::List(jentries(b))
{
    lemma_jsame(b);
}

/// the first n entries of a are those of b
pub open spec fn esame(a: Entry, b: Entry) -> bool {
    match b { Entry::B(x) => a == b, Entry::T(l) => a is T && a->T_0 =~= l }
}
pub open spec fn epart(a: Seq<Entry>, b: Seq<Entry>, n: int) -> bool {
    a.len() == n && n <= b.len() && forall|i: int| 0 <= i < n ==> esame(#[trigger] a[i], b[i])
}
pub proof fn lemma_epart(b: Seq<Entry>)
    ensures forall|a: Seq<Entry>| #[trigger] epart(a, b, b.len() as int) ==> a == b
{
    assert forall|a: Seq<Entry>| #[trigger] epart(a, b, b.len() as int) implies a == b by {
        assert forall|i: int| 0 <= i < b.len() implies a[i] == b[i] by { assert(esame(a[i], b[i])); }
        assert(a =~= b);
    }
}

// ---------------------------------------------------------------- RLP
pub open spec fn eitem(e: Entry) -> Item { match e { Entry::B(b) => Item::S(b), Entry::T(l) => Item::L(items_of(l)) } }
pub open spec fn eitems(l: Seq<Entry>) -> Seq<Item> { Seq::new(l.len(), |i: int| eitem(l[i])) }
pub open spec fn pitem(ty: Seq<int>, ts: Seq<int>, key: Seq<int>, root: Seq<int>, es: Seq<Entry>) -> Item {
    Item::L(seq![Item::S(ty), Item::S(ts), Item::S(key), Item::S(root), Item::L(eitems(es))])
}
pub open spec fn prlp(ty: Seq<int>, ts: Seq<int>, key: Seq<int>, root: Seq<int>, es: Seq<Entry>) -> Seq<int> { rlp(pitem(ty, ts, key, root, es)) }
proof fn lemma_items_of(l: Seq<Seq<int>>)
    ensures all_strings(items_of(l)), strings_of(items_of(l)) == l, all_bytes(l) ==> item_ok(Item::L(items_of(l)))
{
    assert(strings_of(items_of(l)) =~= l);
    if all_bytes(l) {
        assert forall|i: int| 0 <= i < items_of(l).len() implies item_ok(#[trigger] items_of(l)[i]) by { assert(is_bytes(l[i])); }
        lemma_item_ok_list(items_of(l));
    }
}
pub open spec fn entry_of(x: Item) -> Entry { match x { Item::S(b) => Entry::B(b), Item::L(l) => Entry::T(strings_of(l)) } }
pub proof fn lemma_eitems(es: Seq<Entry>)
    ensures entries_ok(es) ==> item_ok(Item::L(eitems(es))),
        forall|i: int| 0 <= i < es.len() ==> (eitems(es)[i] is L ==> all_strings(eitems(es)[i]->L_0)) && entry_of(#[trigger] eitems(es)[i]) == es[i]
{
    assert forall|i: int| 0 <= i < es.len() implies (eitems(es)[i] is L ==> all_strings(eitems(es)[i]->L_0)) && entry_of(#[trigger] eitems(es)[i]) == es[i]
    by { if es[i] is T { lemma_items_of(es[i]->T_0); } }
    if entries_ok(es) {
        assert forall|i: int| 0 <= i < eitems(es).len() implies item_ok(#[trigger] eitems(es)[i]) by {
            assert(entry_ok(es[i]));
            if es[i] is T { lemma_items_of(es[i]->T_0); }
        }
        lemma_item_ok_list(eitems(es));
    }
}
pub proof fn lemma_prlp(ty: Seq<int>, ts: Seq<int>, key: Seq<int>, root: Seq<int>, es: Seq<Entry>)
    ensures is_bytes(ty) && is_bytes(ts) && is_bytes(key) && is_bytes(root) && entries_ok(es)
        ==> rlp_ok(prlp(ty, ts, key, root, es)) && unrlp(prlp(ty, ts, key, root, es)) == pitem(ty, ts, key, root, es)
            && item_ok(pitem(ty, ts, key, root, es)) && is_bytes(prlp(ty, ts, key, root, es))
{
    broadcast use ax_rlp_roundtrip;
    if is_bytes(ty) && is_bytes(ts) && is_bytes(key) && is_bytes(root) && entries_ok(es) {
        lemma_eitems(es);
        let l = seq![Item::S(ty), Item::S(ts), Item::S(key), Item::S(root), Item::L(eitems(es))];
        assert forall|i: int| 0 <= i < l.len() implies item_ok(#[trigger] l[i]) by {
            if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else { assert(i == 4); }
        }
        lemma_item_ok_list(l);
    }
}
} // verus!
