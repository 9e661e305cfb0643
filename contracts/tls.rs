//@module tls
//@use crate::tls_result::{TlsError, TlsErrorKind}
//@use crate::tls_item::*
//@use crate::cipher::chacha20_poly1305::{aead_seal, aead_fits}
//@use crate::vshim::io::{partly, suffix, read_step, write_step, Read, Write}
//@use crate::handshake::{hs_ready, hs_first, hs_after, hs_parsed, hs_value, hs_must}
//@use crate::alert::{AlertLevel, AlertLevel_num, AlertDescription_num}
//@spec
broadcast use crate::tls_result::axiom_question;
// ---- RFC 5246, 6.2: records
pub open spec fn ct_num(x: ContentType) -> int {
    match x { ContentType::ChangeCipherSpecTy => 20, ContentType::AlertTy => 21, ContentType::HandshakeTy => 22, ContentType::ApplicationDataTy => 23 }
}
pub open spec fn rec_max() -> int { 16384 }
pub open spec fn enc_max() -> int { 18432 }
// RFC 7905: the 96-bit big-endian sequence number XOR the fixed IV
pub open spec fn seq96(k: u64) -> Seq<u8> { seq![0u8, 0u8, 0u8, 0u8] + be64_bytes(k) }
pub open spec fn rec_nonce(k: u64, iv: Seq<u8>) -> Seq<u8> { Seq::new(12, |i: int| if i < iv.len() { seq96(k)[i] ^ iv[i] } else { seq96(k)[i] }) }
// RFC 5246, 6.2.3.3
pub open spec fn rec_ad(k: u64, ct: u8, maj: u8, min: u8, n: int) -> Seq<u8> { be64_bytes(k) + seq![ct, maj, min] + be16_bytes(n as u16) }
// the fragment on the wire: itself while encryption is off, its sealing afterwards
#[verifier::opaque]
pub open spec fn rec_body(key: Option<Seq<u8>>, iv: Seq<u8>, k: u64, ct: u8, maj: u8, min: u8, p: Seq<u8>) -> Seq<u8> {
    match key { None => p, Some(key) => aead_seal(key, rec_nonce(k, iv), rec_ad(k, ct, maj, min, p.len() as int), p) }
}
pub open spec fn rec_wire(key: Option<Seq<u8>>, iv: Seq<u8>, k: u64, ct: u8, maj: u8, min: u8, p: Seq<u8>) -> Seq<u8> {
    let b = rec_body(key, iv, k, ct, maj, min, p);
    seq![ct, maj, min] + be16_bytes(b.len() as u16) + b
}
// the records for consecutive fragments, version 3.3
pub open spec fn wires(key: Option<Seq<u8>>, iv: Seq<u8>, k: u64, ct: u8, ps: Seq<Seq<u8>>) -> Seq<u8>
    decreases ps.len()
{ if ps.len() == 0 { Seq::empty() } else { wires(key, iv, k, ct, ps.drop_last()) + rec_wire(key, iv, (k + (ps.len() - 1)) as u64, ct, 3, 3, ps.last()) } }
pub open spec fn join(ps: Seq<Seq<u8>>) -> Seq<u8>
    decreases ps.len()
{ if ps.len() == 0 { Seq::empty() } else { join(ps.drop_last()) + ps.last() } }
pub open spec fn frags_ok(ps: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < ps.len() ==> 1 <= (#[trigger] ps[i]).len() <= rec_max() }
proof fn lemma_partly(o: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    ensures
        forall|x: Seq<u8>| #[trigger] partly(o, x, a) ==> partly(o, x, a + b),
        forall|x: Seq<u8>| #[trigger] partly(o + a, x, b) ==> partly(o, x, a + b),
{
    assert forall|x: Seq<u8>| #[trigger] partly(o, x, a) implies partly(o, x, a + b) by {
        let k = choose|k: int| 0 <= k <= a.len() && x == #[trigger] (o + a.subrange(0, k));
        assert((a + b).subrange(0, k) =~= a.subrange(0, k));
        assert(x == o + (a + b).subrange(0, k));
    }
    assert forall|x: Seq<u8>| #[trigger] partly(o + a, x, b) implies partly(o, x, a + b) by {
        let k = choose|k: int| 0 <= k <= b.len() && x == #[trigger] ((o + a) + b.subrange(0, k));
        assert(x =~= o + (a + b).subrange(0, a.len() + k));
    }
}
proof fn lemma_push(key: Option<Seq<u8>>, iv: Seq<u8>, k: u64, ct: u8, ps: Seq<Seq<u8>>, p: Seq<u8>)
    ensures
        wires(key, iv, k, ct, ps.push(p)) == wires(key, iv, k, ct, ps) + rec_wire(key, iv, (k + ps.len()) as u64, ct, 3, 3, p),
        join(ps.push(p)) == join(ps) + p,
        frags_ok(ps) && 1 <= p.len() <= rec_max() ==> frags_ok(ps.push(p)),
{
    assert(ps.push(p).drop_last() =~= ps);
}
// what write_data may have done: whole records carrying `d`, or a beginning of such
pub open spec fn data_sent(key: Option<Seq<u8>>, iv: Seq<u8>, k: u64, ct: u8, d: Seq<u8>, o: Seq<u8>, f: Seq<u8>, k2: u64) -> bool {
    exists|ps: Seq<Seq<u8>>| frags_ok(ps) && join(ps) == d && k2 == k + ps.len() && f == o + #[trigger] wires(key, iv, k, ct, ps)
}
pub open spec fn data_partly_sent(key: Option<Seq<u8>>, iv: Seq<u8>, k: u64, ct: u8, d: Seq<u8>, o: Seq<u8>, f: Seq<u8>, k2: u64) -> bool {
    exists|ps: Seq<Seq<u8>>| frags_ok(ps) && join(ps).len() <= d.len() && d.subrange(0, join(ps).len() as int) == join(ps) && k2 == k + ps.len() && partly(o, f, #[trigger] wires(key, iv, k, ct, ps))
}
pub open spec fn writer_step<W: Write>(o: &TlsWriter<W>, f: &TlsWriter<W>, ct: u8, d: Seq<u8>, r: TlsResult<()>) -> bool {
    &&& f.wkey() == o.wkey() && f.wiv() == o.wiv() && f.iv is Some == o.iv is Some
    &&& !o.writer.wfails() ==> !f.writer.wfails() && r is Ok
    &&& r is Ok ==> data_sent(o.wkey(), o.wiv(), o.write_count, ct, d, o.writer.out(), f.writer.out(), f.write_count)
    &&& r matches Err(e) ==> e.kind == TlsErrorKind::IoFailure && data_partly_sent(o.wkey(), o.wiv(), o.write_count, ct, d, o.writer.out(), f.writer.out(), f.write_count)
}
impl<W: Write> TlsWriter<W> {
    pub open spec fn wkey(&self) -> Option<Seq<u8>> { match self.encryptor { None => None, Some(e) => Some(e.key()) } }
    pub open spec fn wiv(&self) -> Seq<u8> { match self.iv { None => Seq::empty(), Some(v) => v@ } }
    pub open spec fn ready(&self) -> bool { self.wkey() matches Some(k) ==> k.len() == 32 }
}
pub proof fn lemma_body(key: Option<Seq<u8>>, iv: Seq<u8>, k: u64, ct: u8, maj: u8, min: u8, p: Seq<u8>)
    ensures rec_body(key, iv, k, ct, maj, min, p).len() == p.len() + (if key is None { 0int } else { 16int })
{
    reveal(rec_body);
    if key is Some { crate::cipher::chacha20_poly1305::lemma_seal_len(key->0, rec_nonce(k, iv), rec_ad(k, ct, maj, min, p.len() as int), p); }
}
//@impl <ContentType as crate :: vshim :: enum_primitive :: FromPrimitive>
    open spec fn fp_num(self) -> int { ct_num(self) }
//@fn <ContentType as crate :: vshim :: enum_primitive :: FromPrimitive>::from_i64
//@fn <ContentType as crate :: vshim :: enum_primitive :: FromPrimitive>::from_u64
//@const TLS_VERSION
    ensures TLS_VERSION == (3u8, 3u8)
//@const RECORD_MAX_LEN
    ensures RECORD_MAX_LEN == 16384
//@consthint RECORD_MAX_LEN
    assert(1usize << 14usize == 16384usize) by (bit_vector);
//@const ENC_RECORD_MAX_LEN
    ensures ENC_RECORD_MAX_LEN == 18432
//@consthint ENC_RECORD_MAX_LEN
    assert(1usize << 14usize == 16384usize) by (bit_vector);
//@fn Record::new
    requires fragment@.len() <= rec_max()
    ensures r.content_type == content_type, r.ver_major == ver_major, r.ver_minor == ver_minor, r.fragment == fragment,
//@fn TlsWriter < W >::new
    ensures r.wkey() is None, r.iv is None, r.writer == writer, r.write_count == 0,
//@fn TlsWriter < W >::set_encryptor
    requires old(self).encryptor is None
    ensures final(self).wkey() == Some(encryptor.key()), final(self).wiv() == old(self).wiv(), final(self).iv == old(self).iv, final(self).writer == old(self).writer, final(self).write_count == 0,
//@fn TlsWriter < W >::set_iv
    requires old(self).iv is None
    ensures final(self).wkey() == old(self).wkey(), final(self).encryptor == old(self).encryptor, final(self).iv == Some(iv), final(self).writer == old(self).writer, final(self).write_count == old(self).write_count,
//@fn TlsWriter < W >::write_record
    requires old(self).ready(), record.fragment@.len() <= rec_max()
    ensures
        final(self).wkey() == old(self).wkey(), final(self).wiv() == old(self).wiv(), final(self).iv is Some == old(self).iv is Some,
        final(self).write_count == old(self).write_count + 1,
        write_step(&old(self).writer, &final(self).writer,
            rec_wire(old(self).wkey(), old(self).wiv(), old(self).write_count, ct_num(record.content_type) as u8, record.ver_major, record.ver_minor, record.fragment@), r is Ok),
        r matches Err(e) ==> e.kind == TlsErrorKind::IoFailure,
//@hint start
    // fewer than 2^64 records are written under one key
    assume(self.write_count < u64::MAX);
    let ghost p = record.fragment@;
    let ghost (key, giv, k) = (self.wkey(), self.wiv(), self.write_count);
    let ghost (ct, maj, min) = (ct_num(record.content_type) as u8, record.ver_major, record.ver_minor);
    let ghost b = rec_body(key, giv, k, ct, maj, min, p);
    let ghost o = self.writer.out();
    proof {
        lemma_body(key, giv, k, ct, maj, min, p);
        let n = be16_bytes(b.len() as u16);
        lemma_partly(o, seq![ct], seq![maj]);
        lemma_partly(o, seq![ct] + seq![maj], seq![min]);
        lemma_partly(o, seq![ct] + seq![maj] + seq![min], n);
        lemma_partly(o, seq![ct] + seq![maj] + seq![min] + n, b);
        assert(seq![ct] + seq![maj] + seq![min] =~= seq![ct, maj, min]);
        assert((o + seq![ct]) + seq![maj] =~= o + (seq![ct] + seq![maj]));
        assert((o + (seq![ct] + seq![maj])) + seq![min] =~= o + (seq![ct] + seq![maj] + seq![min]));
        assert((o + seq![ct, maj, min]) + n =~= o + (seq![ct, maj, min] + n));
        assert((o + (seq![ct, maj, min] + n)) + b =~= o + (seq![ct, maj, min] + n + b));
    }
//@loop 0 it
        invariant
            self.iv is Some, giv == self.iv->0@, k == self.write_count, it.index@ <= 12,
            forall|i: int| 0 <= i < it.index@ ==> #[trigger] u96_seq_num@[i] == seq96(k)[i] ^ giv[i],
            forall|i: int| it.index@ <= i < 12 ==> #[trigger] u96_seq_num@[i] == seq96(k)[i],
//@hint before /if let Some \( ?ref iv/
    proof { assert(u96_seq_num@ =~= seq96(k)); assert(self.iv is None ==> u96_seq_num@ =~= rec_nonce(k, giv)); }
//@hint before /^encryptor \. encrypt \(/
    proof { assert(ad@ =~= rec_ad(k, ct, maj, min, p.len() as int)); }
//@hint after /if let Some \( ?ref iv/
    proof { reveal(rec_body); assert(u96_seq_num@ =~= rec_nonce(k, giv)); }
//@hint before /self \. write_count \+= 1/
    proof { reveal(rec_body); assert(encrypted_fragment@ == b); }
//@fn TlsWriter < W >::write_data
    requires old(self).ready()
    ensures writer_step(&*old(self), &*final(self), ct_num(ty) as u8, data@, r), final(self).ready(),
//@hint start
    let ghost (key, iv, k, o, ct) = (self.wkey(), self.wiv(), self.write_count, self.writer.out(), ct_num(ty) as u8);
    let ghost mut ps: Seq<Seq<u8>> = Seq::empty();
    proof { assert(o + wires(key, iv, k, ct, ps) =~= o); assert(data@.subrange(0, 0) =~= join(ps)); }
//@loop 0
        invariant
            self.ready(), self.wkey() == key, self.wiv() == iv, self.iv is Some == old(self).iv is Some, old(self).wkey() == key, old(self).wiv() == iv, old(self).write_count == k, old(self).writer.out() == o,
            ct == ct_num(ty) as u8, major == 3, minor == 3,
            !old(self).writer.wfails() ==> !self.writer.wfails(),
            __pos1 <= data@.len(), frags_ok(ps), join(ps) == data@.subrange(0, __pos1 as int), self.write_count == k + ps.len(),
            self.writer.out() == o + wires(key, iv, k, ct, ps),
        decreases data@.len() - __pos1
//@hint before /self \. write_record/
    proof {
        let p = fragment@;
        lemma_push(key, iv, k, ct, ps, p);
        let w = rec_wire(key, iv, (k + ps.len()) as u64, ct, 3, 3, p);
        lemma_partly(o, wires(key, iv, k, ct, ps), w);
        assert((o + wires(key, iv, k, ct, ps)) + w =~= o + wires(key, iv, k, ct, ps.push(p)));
        assert(data@.subrange(0, join(ps.push(p)).len() as int) =~= join(ps.push(p)));
        ps = ps.push(p);
    }
//@hint end
    proof { assert(data@.subrange(0, data@.len() as int) =~= data@); }
//@fn TlsWriter < W >::write_handshake
    requires old(self).ready(), handshake.fits(), handshake.known()
    ensures writer_step(&*old(self), &*final(self), 22, handshake.enc(), r), final(self).ready(),
//@fn TlsWriter < W >::write_alert
    requires old(self).ready()
    ensures writer_step(&*old(self), &*final(self), 21, alert.enc(), r), final(self).ready(),
//@fn TlsWriter < W >::write_change_cipher_spec
    requires old(self).ready()
    ensures writer_step(&*old(self), &*final(self), 20, seq![1u8], r), final(self).ready(),
//@hint start
    proof { assert(forall|x: [u8; 1]| x@ == seq![1u8] || x@.len() != 1 || x@[0] != 1u8 || (x@ =~= seq![1u8])); }
//@fn TlsWriter < W >::write_application_data
    requires old(self).ready(), old(self).wkey() is Some
    ensures writer_step(&*old(self), &*final(self), 23, data@, r), final(self).ready(),
//@spec
// ---- the receiving side
pub open spec fn opened(key: Seq<u8>, nonce: Seq<u8>, ad: Seq<u8>, c: Seq<u8>) -> Option<Seq<u8>> {
    if exists|p: Seq<u8>| c == #[trigger] aead_seal(key, nonce, ad, p) { Some(choose|p: Seq<u8>| c == #[trigger] aead_seal(key, nonce, ad, p)) } else { None }
}
pub proof fn lemma_suffix(a: Seq<u8>)
    ensures suffix(a, a), forall|b: Seq<u8>, c: Seq<u8>| #![trigger suffix(a, b), suffix(b, c)] suffix(a, b) && suffix(b, c) ==> suffix(a, c)
{
    assert(a.subrange(0, a.len() as int) =~= a);
    assert forall|b: Seq<u8>, c: Seq<u8>| #![trigger suffix(a, b), suffix(b, c)] suffix(a, b) && suffix(b, c) implies suffix(a, c) by {
        assert(c =~= a.subrange(a.len() - c.len(), a.len() as int));
    }
}
pub struct Rec { pub ct: u8, pub maj: u8, pub min: u8, pub p: Seq<u8>, pub used: int }
pub open spec fn known_ct(x: u8) -> bool { 20 <= x <= 23 }
// the record body that must open, under the k-th nonce and the associated data of its own header
#[verifier::opaque]
pub open spec fn rec_open(key: Option<Seq<u8>>, iv: Seq<u8>, k: u64, ct: u8, maj: u8, min: u8, body: Seq<u8>) -> Option<Seq<u8>> {
    match key {
        None => Some(body),
        Some(key) => if body.len() < 16 { None } else { opened(key, rec_nonce(k, iv), rec_ad(k, ct, maj, min, body.len() - 16), body) },
    }
}
pub open spec fn rec_len(s: Seq<u8>) -> int { be16(s, 3) as int }
pub open spec fn rec_here(s: Seq<u8>) -> bool { s.len() >= 5 && known_ct(s[0]) && rec_len(s) <= enc_max() && s.len() >= 5 + rec_len(s) }
pub open spec fn rec_frag(key: Option<Seq<u8>>, iv: Seq<u8>, k: u64, s: Seq<u8>) -> Option<Seq<u8>> { rec_open(key, iv, k, s[0], s[1], s[2], s.subrange(5, 5 + rec_len(s))) }
// the record `s` begins with, if the reader has to accept one
pub open spec fn rec_next(key: Option<Seq<u8>>, iv: Seq<u8>, k: u64, s: Seq<u8>) -> Option<Rec> {
    if !rec_here(s) { None } else {
        match rec_frag(key, iv, k, s) {
            None => None,
            Some(p) => if p.len() > rec_max() { None } else { Some(Rec { ct: s[0], maj: s[1], min: s[2], p, used: 5 + rec_len(s) }) },
        }
    }
}
// the error kinds a refusal may have
pub open spec fn rec_err(key: Option<Seq<u8>>, iv: Seq<u8>, k: u64, s: Seq<u8>, fails: bool, e: TlsErrorKind) -> bool {
    match e {
        TlsErrorKind::IoFailure => fails || s.len() < 5 || s.len() < 5 + rec_len(s),
        TlsErrorKind::UnexpectedMessage => s.len() >= 1 && !known_ct(s[0]),
        TlsErrorKind::RecordOverflow => s.len() >= 5 && (rec_len(s) > enc_max() || (key is None && rec_len(s) > rec_max())
            || (rec_here(s) && rec_frag(key, iv, k, s) is Some && rec_frag(key, iv, k, s)->0.len() > rec_max())),
        TlsErrorKind::BadRecordMac => key is Some && s.len() >= 5 && (rec_len(s) < 16 || (s.len() >= 5 + rec_len(s) && rec_frag(key, iv, k, s) is None)),
        _ => false,
    }
}
impl<R: ReadExt> TlsReader<R> {
    pub open spec fn rkey(&self) -> Option<Seq<u8>> { match self.decryptor { None => None, Some(e) => Some(e.key()) } }
    pub open spec fn riv(&self) -> Seq<u8> { match self.iv { None => Seq::empty(), Some(v) => v@ } }
    pub open spec fn ready(&self) -> bool { self.rkey() matches Some(k) ==> k.len() == 32 }
    pub open spec fn same_keys(&self, o: &Self) -> bool { self.rkey() == o.rkey() && self.riv() == o.riv() && self.decryptor is Some == o.decryptor is Some && self.iv is Some == o.iv is Some }
}
//@fn TlsReader < R >::new
    ensures r.rkey() is None, r.iv is None, r.reader == reader, r.read_count == 0, r.handshake_buffer.buf@.len() == 0, !r.closed,
//@fn TlsReader < R >::set_decryptor
    requires old(self).decryptor is None
    ensures final(self).rkey() == Some(decryptor.key()), final(self).iv == old(self).iv, final(self).reader == old(self).reader, final(self).read_count == 0,
        final(self).handshake_buffer == old(self).handshake_buffer, final(self).closed == old(self).closed,
//@fn TlsReader < R >::set_iv
    requires old(self).iv is None
    ensures final(self).decryptor == old(self).decryptor, final(self).iv == Some(iv), final(self).reader == old(self).reader, final(self).read_count == old(self).read_count,
        final(self).handshake_buffer == old(self).handshake_buffer, final(self).closed == old(self).closed,
//@fn TlsReader < R >::read_record
    requires old(self).ready()
    ensures
        final(self).same_keys(old(self)), final(self).ready(), final(self).handshake_buffer == old(self).handshake_buffer, final(self).closed == old(self).closed,
        !old(self).reader.fails() ==> !final(self).reader.fails(),
        suffix(old(self).reader.rem(), final(self).reader.rem()),
        final(self).reader.pos() + final(self).reader.rem().len() == old(self).reader.pos() + old(self).reader.rem().len(),
        r matches Ok(x) ==> {
            let n = rec_next(old(self).rkey(), old(self).riv(), old(self).read_count, old(self).reader.rem());
            &&& n is Some
            &&& ct_num(x.content_type) == n->0.ct && x.ver_major == n->0.maj && x.ver_minor == n->0.min && x.fragment@ == n->0.p
            &&& final(self).read_count == old(self).read_count + 1
            &&& final(self).reader.rem() == skip(old(self).reader.rem(), n->0.used)
        },
        r matches Err(e) ==> final(self).read_count == old(self).read_count
            && rec_err(old(self).rkey(), old(self).riv(), old(self).read_count, old(self).reader.rem(), old(self).reader.fails(), e.kind),
        !old(self).reader.fails() && rec_next(old(self).rkey(), old(self).riv(), old(self).read_count, old(self).reader.rem()) is Some ==> r is Ok,
//@hint start
    // fewer than 2^64 records are read under one key
    assume(self.read_count < u64::MAX);
    let ghost s = self.reader.rem();
    let ghost (key, giv, k) = (self.rkey(), self.riv(), self.read_count);
    proof {
        assert(skip(skip(skip(s, 1), 1), 1) =~= skip(s, 3) || s.len() < 3);
        assert(skip(skip(s, 3), 2) =~= skip(s, 5) || s.len() < 5);
        if s.len() >= 5 { assert(be16(skip(s, 3), 0) == be16(s, 3)); }
        assert(FromPrimitive::fp_num(ContentType::ChangeCipherSpecTy) == 20 && FromPrimitive::fp_num(ContentType::AlertTy) == 21
            && FromPrimitive::fp_num(ContentType::HandshakeTy) == 22 && FromPrimitive::fp_num(ContentType::ApplicationDataTy) == 23);
        lemma_suffix(s);
    }
//@loop 0 it
        invariant
            self.iv is Some, giv == self.iv->0@, k == self.read_count, it.index@ <= 12,
            forall|i: int| 0 <= i < it.index@ ==> #[trigger] u96_seq_num@[i] == seq96(k)[i] ^ giv[i],
            forall|i: int| it.index@ <= i < 12 ==> #[trigger] u96_seq_num@[i] == seq96(k)[i],
//@hint before /if let Some \( ?ref iv/
    proof { assert(u96_seq_num@ =~= seq96(k)); assert(self.iv is None ==> u96_seq_num@ =~= rec_nonce(k, giv)); }
//@hint before /^let \w+ = decryptor \. decrypt/
    proof { assert(ad@ =~= rec_ad(k, s[0], s[1], s[2], fragment@.len() - 16)); }
//@hint after /if let Some \( ?ref iv/
    proof { assert(u96_seq_num@ =~= rec_nonce(k, giv)); }
//@hint before /let record = match/
    proof {
        reveal(rec_open);
        assert(fragment@ =~= s.subrange(5, 5 + rec_len(s)));
        if key is None { assert(rec_frag(key, giv, k, s) == Some(fragment@)); }
        else if fragment@.len() >= 16 { assert(rec_frag(key, giv, k, s) == opened(key->0, rec_nonce(k, giv), rec_ad(k, s[0], s[1], s[2], fragment@.len() - 16), fragment@)); }
        else { assert(rec_frag(key, giv, k, s) is None); }
    }
//@spec
// ---- messages: what a reader in state (k records accepted, b handshake bytes pending, s still to come) returns next
pub struct St { pub k: int, pub b: Seq<u8>, pub s: Seq<u8> }
pub enum Out { Bad, Hs(Seq<u8>), Ccs, Alert(u8, u8), App(Seq<u8>) }
pub open spec fn alert_known(x: u8, y: u8) -> bool {
    (exists|v: AlertLevel| #[trigger] FromPrimitive::fp_num(v) == x) && (exists|v: AlertDescription| #[trigger] FromPrimitive::fp_num(v) == y)
}
pub open spec fn next(key: Option<Seq<u8>>, iv: Seq<u8>, t: St) -> (Out, St)
    decreases t.s.len()
{
    if hs_ready(t.b) { (Out::Hs(hs_first(t.b)), St { b: hs_after(t.b), ..t }) } else {
        match rec_next(key, iv, t.k as u64, t.s) {
            None => (Out::Bad, t),
            Some(n) => {
                let u = St { k: t.k + 1, s: skip(t.s, n.used), ..t };
                if n.ct == 20 { if n.p == seq![1u8] && t.b.len() == 0 { (Out::Ccs, u) } else { (Out::Bad, u) } }
                else if n.ct == 21 { if n.p.len() >= 2 && alert_known(n.p[0], n.p[1]) { (Out::Alert(n.p[0], n.p[1]), u) } else { (Out::Bad, u) } }
                else if n.ct == 22 { if n.p.len() == 0 { (Out::Bad, u) } else { next(key, iv, St { b: t.b + n.p, ..u }) } }
                else { (Out::App(n.p), u) }
            },
        }
    }
}
impl<R: ReadExt> TlsReader<R> {
    pub open spec fn st(&self) -> St { St { k: self.read_count as int, b: self.handshake_buffer.buf@, s: self.reader.rem() } }
    pub open spec fn nxt(&self) -> (Out, St) { next(self.rkey(), self.riv(), self.st()) }
}
// everything but the message itself
pub open spec fn reader_frame<R: ReadExt>(o: &TlsReader<R>, f: &TlsReader<R>) -> bool {
    &&& f.same_keys(o) && f.ready()
    &&& !o.reader.fails() ==> !f.reader.fails()
    &&& suffix(o.reader.rem(), f.reader.rem())
    &&& f.read_count >= o.read_count
}
pub open spec fn msg_is(m: Message, out: Out) -> bool {
    match m {
        Message::HandshakeMessage(h) => out is Hs && hs_value(out->Hs_0, h),
        Message::ChangeCipherSpecMessage => out is Ccs,
        Message::AlertMessage(a) => out is Alert && AlertLevel_num(a.level) == out->Alert_0 && AlertDescription_num(a.description) == out->Alert_1,
        Message::ApplicationDataMessage(d) => out is App && d@ == out->App_0,
    }
}
pub open spec fn msg_must(out: Out) -> bool { !(out is Bad) && (out matches Out::Hs(m) ==> hs_must(m)) }
// the error kinds a refusal may have
pub open spec fn hs_err(m: Seq<u8>, e: TlsErrorKind) -> bool { !hs_must(m) && e != TlsErrorKind::IoFailure && parse_err(e) }
pub open spec fn next_err(key: Option<Seq<u8>>, iv: Seq<u8>, t: St, fails: bool, e: TlsErrorKind) -> bool
    decreases t.s.len()
{
    if hs_ready(t.b) { hs_err(hs_first(t.b), e) } else {
        match rec_next(key, iv, t.k as u64, t.s) {
            None => rec_err(key, iv, t.k as u64, t.s, fails, e),
            Some(n) => {
                let u = St { k: t.k + 1, s: skip(t.s, n.used), ..t };
                (fails && e == TlsErrorKind::IoFailure)
                || if n.ct == 22 && n.p.len() > 0 { next_err(key, iv, St { b: t.b + n.p, ..u }, fails, e) } else { next(key, iv, t).0 is Bad && e == TlsErrorKind::UnexpectedMessage }
            },
        }
    }
}
proof fn lemma_rec_err(key: Option<Seq<u8>>, iv: Seq<u8>, k: u64, s: Seq<u8>, fails: bool, e: TlsErrorKind)
    requires rec_err(key, iv, k, s, fails, e), rec_next(key, iv, k, s) is Some
    ensures fails, e == TlsErrorKind::IoFailure
{ reveal(rec_open); }
impl<R: ReadExt> TlsReader<R> {
    pub open spec fn nxt_err(&self, e: TlsErrorKind) -> bool { next_err(self.rkey(), self.riv(), self.st(), self.reader.fails(), e) }
}
//@fn TlsReader < R >::read_message
    requires old(self).ready()
    ensures
        reader_frame(&*old(self), &*final(self)), final(self).closed == old(self).closed,
        r matches Ok(m) ==> msg_is(m, old(self).nxt().0) && final(self).st() == old(self).nxt().1,
        !old(self).reader.fails() && msg_must(old(self).nxt().0) ==> r is Ok,
        // a transport failure is reported as such only if there is one, or too few bytes
        r matches Err(e) && e.kind == TlsErrorKind::IoFailure ==> old(self).reader.fails() || old(self).nxt().0 is Bad,
        r matches Err(e) ==> e.kind != TlsErrorKind::AlertReceived && old(self).nxt_err(e.kind),
//@attr #[verifier::exec_allows_no_decreases_clause]
//@hint start
    let ghost (key, giv) = (self.rkey(), self.riv());
    let ghost want = self.nxt();
    let ghost (t0, ff) = (self.st(), self.reader.fails());
    proof { lemma_suffix(self.reader.rem()); }
//@loop 0
        invariant
            !hs_ready(self.handshake_buffer.buf@), old(self).rkey() == key, old(self).riv() == giv,
            reader_frame(&*old(self), &*self), self.closed == old(self).closed,
            self.nxt() == want, old(self).st() == t0, old(self).reader.fails() == ff,
            forall|e: TlsErrorKind| #[trigger] next_err(key, giv, self.st(), ff, e) ==> next_err(key, giv, t0, ff, e),
//@hint loop 0 start
    let ghost t = self.st();
    proof {
        assert forall|e: TlsErrorKind| #[trigger] rec_err(key, giv, t.k as u64, t.s, self.reader.fails(), e) implies next_err(key, giv, t0, ff, e) by {
            if rec_next(key, giv, t.k as u64, t.s) is Some { lemma_rec_err(key, giv, t.k as u64, t.s, self.reader.fails(), e); }
            assert(next_err(key, giv, t, ff, e));
        }
    }
//@hint before /match record/
    proof {
        assert(next_err(key, giv, t, ff, TlsErrorKind::UnexpectedMessage) ==> next_err(key, giv, t0, ff, TlsErrorKind::UnexpectedMessage));
    }
    proof { if record.fragment@.len() == 1 && record.fragment@[0] == 1 { assert(record.fragment@ =~= seq![1u8]); } }
//@hint after /self \. handshake_buffer \. add_record/
    let ghost t1 = self.st();
    proof {
        assert(next(key, giv, t1) == want);
        assert forall|e: TlsErrorKind| #[trigger] next_err(key, giv, t1, ff, e) implies next_err(key, giv, t0, ff, e) by { assert(next_err(key, giv, t, ff, e)); }
        assert forall|e: TlsErrorKind| hs_ready(t1.b) && !hs_must(hs_first(t1.b)) && e != TlsErrorKind::IoFailure && #[trigger] parse_err(e) implies next_err(key, giv, t0, ff, e) by { assert(next_err(key, giv, t1, ff, e)); }
    }
//@spec
// ---- the messages do not depend on how their bytes were split into records
// pending bytes plus the payloads of the next n records, if all of these carry handshake bytes
pub open spec fn hs_bytes(key: Option<Seq<u8>>, iv: Seq<u8>, t: St, n: nat) -> Option<Seq<u8>>
    decreases n
{
    if n == 0 { Some(t.b) } else {
        match rec_next(key, iv, t.k as u64, t.s) {
            None => None,
            Some(r) => if r.ct != 22 || r.p.len() == 0 { None } else { hs_bytes(key, iv, St { k: t.k + 1, b: t.b + r.p, s: skip(t.s, r.used) }, (n - 1) as nat) },
        }
    }
}
proof fn lemma_hs_bytes(key: Option<Seq<u8>>, iv: Seq<u8>, t: St, n: nat, c: Seq<u8>)
    ensures hs_bytes(key, iv, t, n) matches Some(x) ==> x.len() >= t.b.len() && x.subrange(0, t.b.len() as int) == t.b
        && hs_bytes(key, iv, St { b: c, ..t }, n) == Some(c + x.subrange(t.b.len() as int, x.len() as int)),
    decreases n
{
    if hs_bytes(key, iv, t, n) is Some {
        let x = hs_bytes(key, iv, t, n)->0;
        if n == 0 {
            assert(x.subrange(0, x.len() as int) =~= x);
            assert(c + x.subrange(x.len() as int, x.len() as int) =~= c);
        } else {
            let r = rec_next(key, iv, t.k as u64, t.s)->0;
            let u = St { k: t.k + 1, b: t.b + r.p, s: skip(t.s, r.used) };
            let v = St { k: t.k + 1, b: c + r.p, s: skip(t.s, r.used) };
            lemma_hs_bytes(key, iv, u, (n - 1) as nat, c + r.p);
            assert(v == St { b: c + r.p, ..u });
            assert(u.b.subrange(0, t.b.len() as int) =~= t.b);
            assert(x.subrange(0, t.b.len() as int) =~= x.subrange(0, u.b.len() as int).subrange(0, t.b.len() as int));
            assert(x.subrange(t.b.len() as int, u.b.len() as int) =~= r.p) by {
                assert(r.p =~= u.b.subrange(t.b.len() as int, u.b.len() as int));
                assert(x.subrange(t.b.len() as int, u.b.len() as int) =~= x.subrange(0, u.b.len() as int).subrange(t.b.len() as int, u.b.len() as int));
            }
            assert((c + r.p) + x.subrange(u.b.len() as int, x.len() as int) =~= c + x.subrange(t.b.len() as int, x.len() as int)) by {
                assert(x.subrange(t.b.len() as int, x.len() as int) =~= x.subrange(t.b.len() as int, u.b.len() as int) + x.subrange(u.b.len() as int, x.len() as int));
            }
        }
    }
}
proof fn lemma_ready(a: Seq<u8>, x: Seq<u8>)
    requires a.len() <= x.len(), x.subrange(0, a.len() as int) == a, hs_ready(a)
    ensures hs_ready(x), hs_first(x) == hs_first(a), hs_after(x) == hs_after(a) + x.subrange(a.len() as int, x.len() as int)
{
    assert(a[0] == x[0] && a[1] == x[1] && a[2] == x[2] && a[3] == x[3]);
    assert(hs_first(x) =~= hs_first(a));
    assert(hs_after(x) =~= hs_after(a) + x.subrange(a.len() as int, x.len() as int));
}
// [C13] whenever the next n records carry handshake bytes that complete a message, the reader returns that message,
// and what it keeps together with the records left is exactly what follows the message
pub proof fn lemma_fragmentation(key: Option<Seq<u8>>, iv: Seq<u8>, t: St, n: nat)
    requires hs_bytes(key, iv, t, n) is Some, hs_ready(hs_bytes(key, iv, t, n)->0)
    ensures
        next(key, iv, t).0 == Out::Hs(hs_first(hs_bytes(key, iv, t, n)->0)),
        exists|m: nat| m <= n && #[trigger] hs_bytes(key, iv, next(key, iv, t).1, m) == Some(hs_after(hs_bytes(key, iv, t, n)->0)),
    decreases n
{
    let x = hs_bytes(key, iv, t, n)->0;
    if hs_ready(t.b) {
        lemma_hs_bytes(key, iv, t, n, hs_after(t.b));
        lemma_ready(t.b, x);
        assert(hs_bytes(key, iv, next(key, iv, t).1, n) == Some(hs_after(x)));
    } else {
        assert(n > 0);
        let r = rec_next(key, iv, t.k as u64, t.s)->0;
        let u = St { k: t.k + 1, b: t.b + r.p, s: skip(t.s, r.used) };
        lemma_fragmentation(key, iv, u, (n - 1) as nat);
        assert(next(key, iv, t) == next(key, iv, u));
        let m = choose|m: nat| m <= n - 1 && #[trigger] hs_bytes(key, iv, next(key, iv, u).1, m) == Some(hs_after(x));
        assert(hs_bytes(key, iv, next(key, iv, t).1, m) == Some(hs_after(x)));
    }
}
pub enum AppOut { Bad, Fatal, Closed, Data(Seq<u8>) }
pub open spec fn app_next(key: Option<Seq<u8>>, iv: Seq<u8>, t: St) -> (AppOut, St)
    decreases t.s.len()
{
    let (o, u) = next(key, iv, t);
    match o {
        Out::App(d) => if d.len() > 0 { (AppOut::Data(d), u) } else if u.s.len() < t.s.len() { app_next(key, iv, u) } else { (AppOut::Bad, u) },
        Out::Alert(x, y) => if y == 0 { (AppOut::Closed, u) } else { (AppOut::Fatal, u) },
        _ => (AppOut::Bad, u),
    }
}
pub proof fn lemma_next(key: Option<Seq<u8>>, iv: Seq<u8>, t: St)
    ensures ({
        let (o, u) = next(key, iv, t);
        suffix(t.s, u.s) && (!(o is Bad) && !(o is Hs) ==> u.s.len() < t.s.len()) && u.k >= t.k
    })
    decreases t.s.len()
{
    lemma_suffix(t.s);
    let (o, w) = next(key, iv, t);
    if hs_ready(t.b) {
        assert(w.s == t.s && w.k == t.k);
    } else if rec_next(key, iv, t.k as u64, t.s) is None {
        assert(w == t);
    } else {
        let n = rec_next(key, iv, t.k as u64, t.s)->0;
        let u = St { k: t.k + 1, s: skip(t.s, n.used), ..t };
        assert(5 <= n.used <= t.s.len());
        assert(u.s.len() < t.s.len());
        assert(u.s =~= t.s.subrange(t.s.len() - u.s.len(), t.s.len() as int));
        assert(suffix(t.s, u.s));
        if n.ct == 22 && n.p.len() > 0 {
            let v = St { b: t.b + n.p, ..u };
            lemma_next(key, iv, v);
            assert(next(key, iv, t) == next(key, iv, v));
            assert(suffix(u.s, w.s));
        } else {
            assert(w == u);
        }
    }
}
//@fn TlsReader < R >::read_application_data
    requires old(self).ready(), old(self).rkey() is Some
    ensures
        reader_frame(&*old(self), &*final(self)), old(self).closed ==> final(self).closed,
        old(self).closed ==> (r matches Ok(d) && d@.len() == 0),
        !old(self).closed ==> {
            let (o, u) = app_next(old(self).rkey(), old(self).riv(), old(self).st());
            &&& r matches Ok(d) ==> final(self).st() == u && if d@.len() > 0 { o == AppOut::Data(d@) && !final(self).closed } else { o is Closed && final(self).closed }
            &&& r is Err && final(self).closed ==> o is Fatal
            &&& !old(self).reader.fails() && (o is Data || o is Closed) ==> r is Ok
            &&& !old(self).reader.fails() && o is Fatal ==> final(self).closed
        },
//@attr #[verifier::exec_allows_no_decreases_clause]
//@hint start
    let ghost (key, giv) = (self.rkey(), self.riv());
    let ghost want = app_next(key, giv, self.st());
    proof { lemma_suffix(self.reader.rem()); }
//@loop 0
        invariant
            old(self).rkey() == key, old(self).riv() == giv, key is Some, !self.closed, !old(self).closed,
            reader_frame(&*old(self), &*self),
            app_next(key, giv, self.st()) == want,
//@hint loop 0 start
    proof { lemma_next(key, giv, self.st()); }
//@fn TlsReader < R >::read_handshake
    requires old(self).ready()
    ensures
        reader_frame(&*old(self), &*final(self)), final(self).closed == old(self).closed,
        r matches Ok(h) ==> old(self).nxt().0 is Hs && hs_value(old(self).nxt().0->Hs_0, h) && final(self).st() == old(self).nxt().1,
        !old(self).reader.fails() && old(self).nxt().0 is Hs && msg_must(old(self).nxt().0) ==> r is Ok,
        r matches Err(e) ==> {
            &&& e.kind == TlsErrorKind::IoFailure ==> old(self).reader.fails() || old(self).nxt().0 is Bad
            &&& e.kind == TlsErrorKind::AlertReceived ==> old(self).nxt().0 is Alert
            &&& old(self).nxt_err(e.kind) || (e.kind == TlsErrorKind::AlertReceived && old(self).nxt().0 is Alert)
                || (e.kind == TlsErrorKind::UnexpectedMessage && (old(self).nxt().0 is Ccs || old(self).nxt().0 is App))
            &&& !old(self).reader.fails() && old(self).nxt().0 is Alert ==> e.kind == TlsErrorKind::AlertReceived
            &&& !old(self).reader.fails() && (old(self).nxt().0 is Ccs || old(self).nxt().0 is App) ==> e.kind == TlsErrorKind::UnexpectedMessage
        },
//@fn TlsReader < R >::read_change_cipher_spec
    requires old(self).ready()
    ensures
        reader_frame(&*old(self), &*final(self)), final(self).closed == old(self).closed,
        r is Ok ==> old(self).nxt().0 is Ccs && final(self).st() == old(self).nxt().1,
        !old(self).reader.fails() && old(self).nxt().0 is Ccs ==> r is Ok,
        r matches Err(e) ==> {
            &&& e.kind == TlsErrorKind::IoFailure ==> old(self).reader.fails() || old(self).nxt().0 is Bad
            &&& old(self).nxt_err(e.kind) || (e.kind == TlsErrorKind::UnexpectedMessage && (old(self).nxt().0 is Alert || old(self).nxt().0 is Hs || old(self).nxt().0 is App))
        },
