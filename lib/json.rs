//! JSON values and their text.
#![allow(unused_imports)]
use vstd::prelude::*;
use crate::base::*;
use crate::codec::*;
use crate::text::*;
verus! {

/// a parsed JSON value (Num: numbers and truth values)
pub enum Json { Str(Seq<int>), Num(int), Null, List(Seq<Json>), Obj(Map<Seq<int>, Json>) }
/// json.loads
pub uninterp spec fn json_ok(t: Seq<int>) -> bool;
pub uninterp spec fn unjson(t: Seq<int>) -> Json;
/// json.dumps without options
pub uninterp spec fn json(j: Json) -> Seq<int>;
/// no lone surrogates anywhere: two that meet would be read back as one character
pub open spec fn json_text(j: Json) -> bool decreases j {
    match j {
        Json::Str(s) => text_ok(s),
        Json::List(l) => forall|i: int| 0 <= i < l.len() ==> json_text(#[trigger] l[i]),
        Json::Obj(m) => forall|k: Seq<int>| #[trigger] m.dom().contains(k) ==> text_ok(k) && json_text(m[k]),
        _ => true,
    }
}
/// t is a way to write j
pub open spec fn json_of(t: Seq<int>, j: Json) -> bool { json_text(j) ==> json_ok(t) && unjson(t) == j }
pub broadcast axiom fn ax_json(j: Json)
    requires json_text(j)
    ensures #![trigger json(j)] json_ok(json(j)), unjson(json(j)) == j, is_ascii(json(j));
pub proof fn lemma_json(j: Json)
    ensures json_of(json(j), j), json_flat(j) ==> json_text(j)
{
    broadcast use ax_json;
    reveal_with_fuel(json_text, 2);
}
/// an object whose entries are all text
pub open spec fn json_flat(j: Json) -> bool {
    j is Obj && forall|k: Seq<int>| #[trigger] j->Obj_0.dom().contains(k) ==> text_ok(k) && j->Obj_0[k] is Str && text_ok(j->Obj_0[k]->Str_0)
}
pub open spec fn jlist(l: Seq<Json>) -> Json { Json::List(l) }
pub open spec fn jtexts(l: Seq<Seq<int>>) -> Seq<Json> { Seq::new(l.len(), |i: int| Json::Str(l[i])) }
/// an entry of an object that is text
pub open spec fn jhas(j: Json, k: Seq<int>) -> bool { j is Obj && j->Obj_0.dom().contains(k) && j->Obj_0[k] is Str }
pub open spec fn jget(j: Json, k: Seq<int>) -> Seq<int> { j->Obj_0[k]->Str_0 }
} // verus!
