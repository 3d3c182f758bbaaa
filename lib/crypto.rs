//! RSA keys, signatures and encryption; AES in EAX mode; saved keys and messages.
#![allow(unused_imports)]
use vstd::prelude::*;
use crate::base::*;
use crate::codec::*;
use crate::text::*;
use crate::hashes::*;
use crate::json::*;
verus! {

// ---------------------------------------------------------------- RSA keys (a key is a number standing for it)
pub uninterp spec fn rsa_priv(k: int) -> bool;
pub uninterp spec fn rsa_pub(k: int) -> int;
/// the unencrypted PEM form
pub uninterp spec fn rsa_pem(k: int) -> Seq<int>;
/// do the bytes load as a key, given a passphrase or none; and as which
pub uninterp spec fn rsa_ok(b: Seq<int>, p: Option<Seq<int>>) -> bool;
pub uninterp spec fn rsa_key(b: Seq<int>, p: Option<Seq<int>>) -> int;
/// b holds the key encrypted with the passphrase
pub uninterp spec fn rsa_locked(b: Seq<int>, k: int, p: Seq<int>) -> bool;
pub broadcast axiom fn ax_rsa_pub(k: int)
    ensures #![trigger rsa_pub(k)] !rsa_priv(rsa_pub(k)), rsa_pub(rsa_pub(k)) == rsa_pub(k);
pub broadcast axiom fn ax_rsa_pem(k: int)
    ensures #![trigger rsa_pem(k)] rsa_ok(rsa_pem(k), None), rsa_key(rsa_pem(k), None) == k, is_ascii(rsa_pem(k)), is_bytes(rsa_pem(k));
pub broadcast axiom fn ax_rsa_locked(b: Seq<int>, k: int, p: Seq<int>)
    requires #[trigger] rsa_locked(b, k, p)
    ensures rsa_ok(b, Some(p)), rsa_key(b, Some(p)) == k;
// ---------------------------------------------------------------- RSASSA-PKCS1-v1_5
/// is the key private and long enough
pub uninterp spec fn rsa_signs(k: int) -> bool;
pub uninterp spec fn rsa_sig(k: int, alg: Seq<int>, d: Seq<int>) -> Seq<int>;
pub uninterp spec fn rsa_verifies(pub_key: int, alg: Seq<int>, d: Seq<int>, s: Seq<int>) -> bool;
pub broadcast axiom fn ax_rsa_sig(k: int, alg: Seq<int>, d: Seq<int>)
    requires rsa_signs(k)
    ensures #![trigger rsa_sig(k, alg, d)] rsa_verifies(rsa_pub(k), alg, d, rsa_sig(k, alg, d));
// ---------------------------------------------------------------- RSAES-OAEP
pub uninterp spec fn oaep_fits(k: int, n: int) -> bool;
pub uninterp spec fn oaep_ok(k: int, c: Seq<int>) -> bool;
pub uninterp spec fn oaep(k: int, c: Seq<int>) -> Seq<int>;
/// the private key of k decrypts c to m
pub open spec fn oaep_opens(k: int, c: Seq<int>, m: Seq<int>) -> bool {
    forall|r: int| #![trigger oaep_ok(r, c)] #![trigger oaep(r, c)] rsa_priv(r) && rsa_pub(r) == rsa_pub(k) ==> oaep_ok(r, c) && oaep(r, c) == m
}
// ---------------------------------------------------------------- AES in EAX mode
pub open spec fn aes_key(k: Seq<int>) -> bool { k.len() == 16 || k.len() == 24 || k.len() == 32 }
pub uninterp spec fn eax_enc(k: Seq<int>, n: Seq<int>, d: Seq<int>) -> Seq<int>;
pub uninterp spec fn eax_dec(k: Seq<int>, n: Seq<int>, c: Seq<int>) -> Seq<int>;
/// the tag of a ciphertext
pub uninterp spec fn eax_tag(k: Seq<int>, n: Seq<int>, c: Seq<int>) -> Seq<int>;
pub broadcast axiom fn ax_eax(k: Seq<int>, n: Seq<int>, d: Seq<int>)
    ensures #![trigger eax_enc(k, n, d)] eax_dec(k, n, eax_enc(k, n, d)) == d;
pub axiom fn ax_sha256_len()
    ensures hlen(alg_sha256()) == 32;

// ---------------------------------------------------------------- kinds of keys
pub open spec fn w_public() -> Seq<int> { seq![112int, 117int, 98int, 108int, 105int, 99int] }
pub open spec fn w_private() -> Seq<int> { seq![112int, 114int, 105int, 118int, 97int, 116int, 101int] }

// ---------------------------------------------------------------- Utils.encrypt: nonce, tag, ciphertext
pub open spec fn pass_key(p: Seq<int>) -> Seq<int> { hf(alg_sha256(), utf8_enc(p)) }
pub open spec fn blob_nonce(b: Seq<int>) -> Seq<int> { b.subrange(0, 16) }
pub open spec fn blob_tag(b: Seq<int>) -> Seq<int> { b.subrange(16, 32) }
pub open spec fn blob_ct(b: Seq<int>) -> Seq<int> { b.subrange(32, b.len() as int) }
/// the tag stored is that of the ciphertext under the password
pub open spec fn blob_ok(b: Seq<int>, p: Seq<int>) -> bool {
    b.len() >= 32 && blob_tag(b) == eax_tag(pass_key(p), blob_nonce(b), blob_ct(b))
}
pub open spec fn blob_data(b: Seq<int>, p: Seq<int>) -> Seq<int> { eax_dec(pass_key(p), blob_nonce(b), blob_ct(b)) }

pub proof fn lemma_blob_parts(n: Seq<int>, t: Seq<int>, c: Seq<int>)
    requires n.len() == 16, t.len() == 16
    ensures blob_nonce(n + t + c) == n, blob_tag(n + t + c) == t, blob_ct(n + t + c) == c, (n + t + c).len() == 32 + c.len()
{
    assert(blob_nonce(n + t + c) =~= n);
    assert(blob_tag(n + t + c) =~= t);
    assert(blob_ct(n + t + c) =~= c);
}
pub broadcast proof fn lemma_blob(n: Seq<int>, t: Seq<int>, c: Seq<int>)
    ensures #![trigger n + t + c] n.len() == 16 && t.len() == 16 ==> blob_nonce(n + t + c) == n && blob_tag(n + t + c) == t
        && blob_ct(n + t + c) == c && (n + t + c).len() == 32 + c.len()
{
    if n.len() == 16 && t.len() == 16 { lemma_blob_parts(n, t, c); }
}
pub broadcast proof fn lemma_blob_right(n: Seq<int>, t: Seq<int>, c: Seq<int>)
    ensures #![trigger n + (t + c)] n.len() == 16 && t.len() == 16 ==> blob_nonce(n + (t + c)) == n && blob_tag(n + (t + c)) == t
        && blob_ct(n + (t + c)) == c && (n + (t + c)).len() == 32 + c.len()
{
    assert(n + (t + c) =~= n + t + c);
    if n.len() == 16 && t.len() == 16 { lemma_blob_parts(n, t, c); }
}
pub proof fn lemma_pass_key(p: Seq<int>)
    ensures pass_key(p).len() == 32
{
    ax_sha256_len();
    broadcast use ax_hf_len;
}

// ---------------------------------------------------------------- messages (RsaKeyPair.encrypt)
pub open spec fn w_enc_session_key() -> Seq<int> { seq![101int, 110int, 99int, 95int, 115int, 101int, 115int, 115int, 105int, 111int, 110int, 95int, 107int, 101int, 121int] }
pub open spec fn w_nonce() -> Seq<int> { seq![110int, 111int, 110int, 99int, 101int] }
pub open spec fn w_tag() -> Seq<int> { seq![116int, 97int, 103int] }
pub open spec fn w_ciphertext() -> Seq<int> { seq![99int, 105int, 112int, 104int, 101int, 114int, 116int, 101int, 120int, 116int] }
pub open spec fn w_signature() -> Seq<int> { seq![115int, 105int, 103int, 110int, 97int, 116int, 117int, 114int, 101int] }
pub open spec fn w_nickname() -> Seq<int> { seq![110int, 105int, 99int, 107int, 110int, 97int, 109int, 101int] }
pub open spec fn w_public_key() -> Seq<int> { seq![112int, 117int, 98int, 108int, 105int, 99int, 95int, 107int, 101int, 121int] }
pub open spec fn w_private_key() -> Seq<int> { seq![112int, 114int, 105int, 118int, 97int, 116int, 101int, 95int, 107int, 101int, 121int] }
pub proof fn lemma_words()
    ensures w_enc_session_key().len() == 15, w_nonce().len() == 5, w_tag().len() == 3, w_ciphertext().len() == 10,
        w_signature().len() == 9, w_nickname().len() == 8, w_public_key().len() == 10, w_private_key().len() == 11,
        is_ascii(w_enc_session_key()), is_ascii(w_nonce()), is_ascii(w_tag()), is_ascii(w_ciphertext()), is_ascii(w_signature()),
        is_ascii(w_nickname()), is_ascii(w_public_key()), is_ascii(w_private_key())
{}
pub open spec fn msg_json(b: Seq<int>) -> Json { unjson(utf8_dec(b)) }
pub open spec fn has_hex(j: Json, k: Seq<int>) -> bool { jhas(j, k) && hex_ok(jget(j, k)) }
pub open spec fn get_hex(j: Json, k: Seq<int>) -> Seq<int> { unhex(jget(j, k)) }
pub open spec fn msg_form(b: Seq<int>) -> bool {
    let j = msg_json(b);
    utf8_ok(b) && json_ok(utf8_dec(b)) && has_hex(j, w_enc_session_key()) && has_hex(j, w_nonce()) && has_hex(j, w_tag())
        && has_hex(j, w_ciphertext()) && has_hex(j, w_signature())
}
/// the signature is the sender's, over the ciphertext
pub open spec fn msg_signed(b: Seq<int>, sender: int) -> bool {
    rsa_verifies(sender, alg_sha256(), get_hex(msg_json(b), w_ciphertext()), get_hex(msg_json(b), w_signature()))
}
pub open spec fn msg_key(b: Seq<int>, k: int) -> Seq<int> { oaep(k, get_hex(msg_json(b), w_enc_session_key())) }
/// the receiver can open the session key
pub open spec fn msg_opens(b: Seq<int>, k: int) -> bool {
    rsa_priv(k) && oaep_ok(k, get_hex(msg_json(b), w_enc_session_key())) && aes_key(msg_key(b, k)) && get_hex(msg_json(b), w_nonce()).len() != 0
}
pub open spec fn msg_tagged(b: Seq<int>, k: int) -> bool {
    get_hex(msg_json(b), w_tag()) == eax_tag(msg_key(b, k), get_hex(msg_json(b), w_nonce()), get_hex(msg_json(b), w_ciphertext()))
}
pub open spec fn msg_data(b: Seq<int>, k: int) -> Seq<int> {
    eax_dec(msg_key(b, k), get_hex(msg_json(b), w_nonce()), get_hex(msg_json(b), w_ciphertext()))
}
/// is the message one the receiver k accepts from that sender
pub open spec fn msg_accepted(b: Seq<int>, k: int, sender: int) -> bool {
    msg_form(b) && msg_signed(b, sender) && msg_opens(b, k) && msg_tagged(b, k)
}
/// every private key for that receiver reads the message as d
pub open spec fn msg_for(b: Seq<int>, sender: int, receiver: int, d: Seq<int>) -> bool {
    forall|k: int| #![trigger msg_opens(b, k)] rsa_priv(k) && rsa_pub(k) == rsa_pub(receiver)
        ==> msg_accepted(b, k, sender) && msg_data(b, k) == d
}
pub open spec fn msg_object(esk: Seq<int>, n: Seq<int>, t: Seq<int>, c: Seq<int>, s: Seq<int>) -> Json {
    Json::Obj(Map::<Seq<int>, Json>::empty().insert(w_enc_session_key(), Json::Str(hexs(esk))).insert(w_nonce(), Json::Str(hexs(n)))
        .insert(w_tag(), Json::Str(hexs(t))).insert(w_ciphertext(), Json::Str(hexs(c))).insert(w_signature(), Json::Str(hexs(s))))
}
// ---------------------------------------------------------------- saved key pairs
/// the text holds nickname, public key and, encrypted with the passphrase, the private key; nothing else
pub open spec fn saved(t: Seq<int>, nick: Seq<int>, k: int, p: Seq<int>) -> bool {
    let j = unjson(t);
    json_ok(t) && j is Obj && (forall|w: Seq<int>| #[trigger] j->Obj_0.dom().contains(w) ==> w == w_nickname() || w == w_public_key() || w == w_private_key())
        && jhas(j, w_nickname()) && jget(j, w_nickname()) == nick
        && jhas(j, w_public_key()) && jget(j, w_public_key()) == rsa_pem(rsa_pub(k))
        && has_hex(j, w_private_key()) && rsa_locked(get_hex(j, w_private_key()), k, p)
}
pub open spec fn key_loads(t: Seq<int>, p: Seq<int>) -> bool {
    let j = unjson(t);
    json_ok(t) && j is Obj && j->Obj_0.dom().contains(w_nickname()) && has_hex(j, w_private_key())
        && is_bytes(p) && rsa_ok(get_hex(j, w_private_key()), Some(p))
}
pub open spec fn key_of(t: Seq<int>, p: Seq<int>) -> int { rsa_key(get_hex(unjson(t), w_private_key()), Some(p)) }
/// what was saved loads with the same passphrase, as the same pair
pub proof fn lemma_saved(t: Seq<int>, nick: Seq<int>, k: int, p: Seq<int>)
    requires saved(t, nick, k, p), is_bytes(p)
    ensures key_loads(t, p), key_of(t, p) == k, jhas(unjson(t), w_nickname()), jget(unjson(t), w_nickname()) == nick
{
    broadcast use ax_rsa_locked;
}
/// what an encrypted message gives the receiver who names the sender, and what a message accepted from a sender is
pub proof fn lemma_message(b: Seq<int>, sender: int, receiver: int, d: Seq<int>, r: int)
    requires rsa_priv(r), rsa_pub(r) == rsa_pub(rsa_key(rsa_pem(rsa_pub(receiver)), None)), msg_for(b, rsa_pub(sender), rsa_key(rsa_pem(rsa_pub(receiver)), None), d)
    ensures msg_accepted(b, r, rsa_pub(rsa_key(rsa_pem(rsa_pub(sender)), None))), msg_data(b, r) == d
{
    broadcast use ax_rsa_pub, ax_rsa_pem;
    let x = msg_opens(b, r);
}
/// the signature made with a key is accepted under the public key written for it
pub proof fn lemma_signature(k: int, d: Seq<int>)
    requires rsa_signs(k)
    ensures rsa_ok(rsa_pem(rsa_pub(k)), None),
        rsa_verifies(rsa_pub(rsa_key(rsa_pem(rsa_pub(k)), None)), alg_sha256(), d, rsa_sig(k, alg_sha256(), d))
{
    broadcast use ax_rsa_pub, ax_rsa_pem, ax_rsa_sig;
}
} // verus!
