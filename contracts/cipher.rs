//@module cipher::chacha20_poly1305
//@use crate::crypto::chacha20::*
//@use crate::crypto::poly1305::poly_tag
//@spec
// RFC 7539, section 2.8
pub open spec fn pad16(n: nat) -> Seq<u8> { Seq::new(((16 - n % 16) % 16) as nat, |i: int| 0u8) }
pub open spec fn mac_data(ad: Seq<u8>, c: Seq<u8>) -> Seq<u8> {
    ad + pad16(ad.len()) + c + pad16(c.len()) + le64_bytes(ad.len() as u64) + le64_bytes(c.len() as u64)
}
pub open spec fn mac_of(block: Seq<u8>, ad: Seq<u8>, c: Seq<u8>) -> Seq<u8> { poly_tag(mac_data(ad, c), block.subrange(0, 16), block.subrange(16, 32)) }
pub open spec fn aead_cipher(key: Seq<u8>, nonce: Seq<u8>, p: Seq<u8>) -> Seq<u8> { xor_stream(later(chacha_state(key, nonce, 0), 1), p) }
pub open spec fn aead_tag(key: Seq<u8>, nonce: Seq<u8>, ad: Seq<u8>, c: Seq<u8>) -> Seq<u8> { mac_of(chacha_bytes(chacha_state(key, nonce, 0)), ad, c) }
#[verifier::opaque]
pub open spec fn aead_seal(key: Seq<u8>, nonce: Seq<u8>, ad: Seq<u8>, p: Seq<u8>) -> Seq<u8> {
    aead_cipher(key, nonce, p) + aead_tag(key, nonce, ad, aead_cipher(key, nonce, p))
}
// the first 2^32 - 2 blocks after block 0
pub open spec fn aead_fits(n: nat) -> bool { 1 + blocks_for(n as int) <= u32::MAX }
pub proof fn lemma_tag_len(key: Seq<u8>, nonce: Seq<u8>, ad: Seq<u8>, c: Seq<u8>)
    ensures aead_tag(key, nonce, ad, c).len() == 16
{
    crate::crypto::poly1305::lemma_tag_len(mac_data(ad, c), chacha_bytes(chacha_state(key, nonce, 0)).subrange(0, 16), chacha_bytes(chacha_state(key, nonce, 0)).subrange(16, 32));
}
pub proof fn lemma_seal_len(key: Seq<u8>, nonce: Seq<u8>, ad: Seq<u8>, p: Seq<u8>)
    ensures aead_seal(key, nonce, ad, p).len() == p.len() + 16
{
    reveal(aead_seal);
    lemma_tag_len(key, nonce, ad, aead_cipher(key, nonce, p));
    lemma_xor_twice(later(chacha_state(key, nonce, 0), 1), p);
}
// opening: d is a sealed string exactly when its tag is that of its ciphertext
pub proof fn lemma_open(key: Seq<u8>, nonce: Seq<u8>, ad: Seq<u8>, d: Seq<u8>)
    requires d.len() >= 16
    ensures ({
        let c = d.subrange(0, d.len() - 16);
        let p = aead_cipher(key, nonce, c);
        &&& aead_tag(key, nonce, ad, c) == d.subrange(d.len() - 16, d.len() as int) <==> d == aead_seal(key, nonce, ad, p)
        &&& forall|q: Seq<u8>| d == #[trigger] aead_seal(key, nonce, ad, q) ==> q == p
    })
{
    reveal(aead_seal);
    let s1 = later(chacha_state(key, nonce, 0), 1);
    let c = d.subrange(0, d.len() - 16);
    let t = d.subrange(d.len() - 16, d.len() as int);
    let p = aead_cipher(key, nonce, c);
    lemma_xor_twice(s1, c);
    assert(aead_cipher(key, nonce, p) == c);
    assert(d =~= c + t);
    lemma_tag_len(key, nonce, ad, c);
    if d == aead_seal(key, nonce, ad, p) {
        assert(t =~= aead_tag(key, nonce, ad, c));
    }
    assert forall|q: Seq<u8>| d == #[trigger] aead_seal(key, nonce, ad, q) implies q == p by {
        let cq = aead_cipher(key, nonce, q);
        lemma_xor_twice(s1, q);
        lemma_tag_len(key, nonce, ad, cq);
        assert(c =~= cq);
        lemma_xor_twice(s1, q);
    }
}
//@fn compute_mac
    requires poly_key@.len() >= 32
    ensures r_0@ == mac_of(poly_key@, ad@, encrypted@),
//@ret r_0
//@hint ret
    proof {
        assert(r@ =~= poly_key@.subrange(0, 16));
        assert(k@ =~= poly_key@.subrange(16, 32));
        assert(msg@ =~= mac_data(ad@, encrypted@));
    }
//@impl <ChaCha20Poly1305Encryptor as Encryptor>
    open spec fn key(&self) -> Seq<u8> { self.key@ }
//@fn <ChaCha20Poly1305Encryptor as Encryptor>::encrypt
//@hint start
    proof { reveal(aead_seal); assert(chacha_state(old(self).key@, nonce@, 0)[12] == 0) by { reveal(chacha_state); } }
//@hint ret
    proof { assert(__ret@ =~= aead_seal(old(self).key@, nonce@, ad@, data@)); }
//@impl <ChaCha20Poly1305Decryptor as Decryptor>
    open spec fn key(&self) -> Seq<u8> { self.key@ }
//@fn <ChaCha20Poly1305Decryptor as Decryptor>::decrypt
//@hint start
    proof { assert(chacha_state(old(self).key@, nonce@, 0)[12] == 0) by { reveal(chacha_state); }
        if data@.len() >= 16 { lemma_open(old(self).key@, nonce@, ad@, data@); }
        assert forall|q: Seq<u8>| data@ == #[trigger] aead_seal(old(self).key@, nonce@, ad@, q) implies data@.len() >= 16 by { lemma_seal_len(old(self).key@, nonce@, ad@, q); }
    }
//@loop 0 it
    invariant mac_expected@.len() == 16, diff == 0 <==> forall|k: int| 0 <= k < it.index@ ==> mac_computed@[k] == mac_expected@[k],
//@hint loop 0 start
    proof {
        let (a, b, c) = (diff, mac_computed@[it.index@], mac_expected@[it.index@]);
        assert((a | (b ^ c)) == 0 <==> a == 0 && b == c) by (bit_vector);
    }
//@hint loop 0 after
    proof {
        if diff == 0 { assert(mac_computed@ =~= mac_expected@); }
    }
//@fn <ChaCha20Poly1305Decryptor as Decryptor>::mac_len
//@impl <ChaCha20Poly1305 as Aead>
//@fn <ChaCha20Poly1305 as Aead>::key_size
//@fn <ChaCha20Poly1305 as Aead>::fixed_iv_len
//@fn <ChaCha20Poly1305 as Aead>::mac_len
//@fn <ChaCha20Poly1305 as Aead>::new_encryptor
//@fn <ChaCha20Poly1305 as Aead>::new_decryptor
//@module cipher
//@use crate::cipher::chacha20_poly1305::{aead_seal, aead_fits}
//@use crate::tls_result::TlsErrorKind
//@use crate::tls_item::*
//@use crate::handshake::{NamedCurve, NamedCurve_num}
//@use crate::cipher::ecdhe::{EcdheServerKeyExchange, EcParameters}
//@use crate::crypto::p256::{valid_point, encodes, gmul, order, base_x, base_y, Aff}
//@use crate::crypto::p256::int256::{grown, le_num}
//@use crate::vshim::rand::RngCore as _
//@use crate::crypto::p256::int256::be
//@spec
//@trait Encryptor
    spec fn key(&self) -> Seq<u8>;
//@fn Encryptor::encrypt
    requires nonce@.len() == 12, old(self).key().len() == 32, aead_fits(plain@.len())
    ensures final(self).key() == old(self).key(), r@ == aead_seal(old(self).key(), nonce@, ad@, plain@),
//@trait Decryptor
    spec fn key(&self) -> Seq<u8>;
//@fn Decryptor::decrypt
    requires nonce@.len() == 12, old(self).key().len() == 32, encrypted@.len() >= 16 ==> aead_fits((encrypted@.len() - 16) as nat)
    ensures final(self).key() == old(self).key(),
        r matches Ok(p) ==> encrypted@ == aead_seal(old(self).key(), nonce@, ad@, p@),
        r matches Err(e) ==> e.kind == TlsErrorKind::BadRecordMac,
        forall|p: Seq<u8>| encrypted@ == #[trigger] aead_seal(old(self).key(), nonce@, ad@, p) ==> r is Ok && r->Ok_0@ == p,
//@fn Decryptor::mac_len
    ensures r == 16,
//@fn Aead::key_size
    ensures r == 32,
//@fn Aead::mac_len
    ensures r == 16,
//@fn Aead::new_encryptor
    requires key@.len() == 32
    ensures r.key() == key@,
//@fn Aead::new_decryptor
    requires key@.len() == 32
    ensures r.key() == key@,
//@fn KeyExchange::compute_keys
    ensures
        r matches Ok((share, pms)) ==> kex_reply(data@, share@, pms@) && share@.len() == 66 && pms@.len() == 32,
        r matches Err(e) ==> kex_err(data@, e.kind),
        grown(old(rng).drawn(), final(rng).drawn()), /* [C22] */
        r matches Ok((share, pms)) ==> kex_fresh(old(rng).drawn(), final(rng).drawn(), data@, share@, pms@), /* [C22] */
//@spec
// the server key exchange message m, encoded as data, names secp256r1 and carries a public point
pub open spec fn ske_ok(m: EcdheServerKeyExchange, data: Seq<u8>) -> bool {
    &&& m.fits() && m.enc() == data
    &&& m.params.curve_params == EcParameters::named_curve(NamedCurve::secp256r1)
    &&& valid_point(m.params.public.0@)
}
pub open spec fn kex_ok(data: Seq<u8>) -> bool { exists|m: EcdheServerKeyExchange| ske_ok(m, data) }
// a finite point, its x coordinate, its encoding
pub open spec fn has_x(p: Aff, a: int) -> bool { match p { None => false, Some((x, y)) => a == x } }
pub open spec fn encodes_aff(b: Seq<u8>, p: Aff) -> bool { match p { None => false, Some((x, y)) => encodes(b, x, y) } }
pub open spec fn kex_with(d: int, data: Seq<u8>, share: Seq<u8>, pms: Seq<u8>) -> bool {
    let q = data.subrange(4, 69);
    &&& 1 <= d < order()
    &&& share.len() == 66 && share[0] == 65 && encodes_aff(share.subrange(1, 66), gmul(d as nat, Some((base_x(), base_y()))))
    &&& pms.len() == 32 && has_x(gmul(d as nat, Some((be(q, 1, 32), be(q, 33, 32)))), be(pms, 0, 32))
}
// the server key exchange `data` is answered by the client's share and gives the premaster secret: for
// one private d, the share is d times the base point and the secret d times the server's point
pub open spec fn kex_reply(data: Seq<u8>, share: Seq<u8>, pms: Seq<u8>) -> bool { kex_ok(data) && exists|d: int| kex_with(d, data, share, pms) }
// d is the last block of 32 bytes in b, read least significant first, and all the blocks since a before it are out of range
#[verifier::opaque]
pub open spec fn key_from(a: Seq<u8>, b: Seq<u8>, d: int) -> bool {
    let k = (b.len() - a.len()) / 32 - 1;
    &&& k >= 0 && b.len() == a.len() + 32 * (k + 1) && grown(a, b)
    &&& d == le_num(b, a.len() + 32 * k, 8) && 1 <= d < order()
    &&& forall|j: int| 0 <= j < k ==> !(1 <= #[trigger] le_num(b, a.len() + 32 * j, 8) < order())
}
pub open spec fn kex_fresh(a: Seq<u8>, b: Seq<u8>, data: Seq<u8>, share: Seq<u8>, pms: Seq<u8>) -> bool {
    exists|d: int| #[trigger] kex_with(d, data, share, pms) && key_from(a, b, d)
}
pub open spec fn kex_err(data: Seq<u8>, e: TlsErrorKind) -> bool { !kex_ok(data) && parse_err(e) && e != TlsErrorKind::IoFailure }
// the bytes of the message
pub proof fn lemma_ske_bytes(m: EcdheServerKeyExchange, data: Seq<u8>)
    requires m.fits(), m.enc() == data
    ensures
        data.len() >= 4, data[0] == 3, data.subrange(1, 3) == len_bytes(NamedCurve_num(m.params.curve_params->named_curve_0), 2),
        data[3] == m.params.public.0@.len(), 1 <= m.params.public.0@.len() <= 255, data.len() >= 4 + m.params.public.0@.len(), data.subrange(4, 4 + m.params.public.0@.len() as int) == m.params.public.0@,
{
    let pt = m.params.public.0@;
    lemma_flat_bytes(pt);
    let c = len_bytes(NamedCurve_num(m.params.curve_params->named_curve_0), 2);
    assert(data =~= (seq![3u8] + c) + (seq![pt.len() as u8] + pt) + m.signed_params.enc());
    assert(data.subrange(1, 3) =~= c);
    assert(data.subrange(4, 4 + pt.len() as int) =~= pt);
}
pub proof fn lemma_ske_same(m: EcdheServerKeyExchange, v: EcdheServerKeyExchange, data: Seq<u8>)
    requires m.fits(), m.enc() == data, ske_ok(v, data)
    ensures ske_ok(m, data), data.subrange(4, 69) == m.params.public.0@
{
    lemma_ske_bytes(m, data);
    lemma_ske_bytes(v, data);
    let (a, b) = (m.params.curve_params->named_curve_0, v.params.curve_params->named_curve_0);
    let (x, y) = (NamedCurve_num(a) as u16, NamedCurve_num(b) as u16);
    assert(be16_bytes(x)[0] == be16_bytes(y)[0] && be16_bytes(x)[1] == be16_bytes(y)[1]);
    assert((x >> 8) as u8 == (y >> 8) as u8 && x as u8 == y as u8 ==> x == y) by (bit_vector);
}
//@fn CipherSuite::new_aead
    requires *self is TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256
//@fn CipherSuite::new_kex
    requires *self is TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256
//@fn CipherSuite::verify_data_len
    ensures r == 12,
