//@module client
//@use crate::tls::*
//@use crate::tls_item::*
//@use crate::alert::{err_alert, AlertDescription_num, AlertLevel_num}
//@use crate::vshim::io::{partly, suffix}
//@use crate::cipher::{CipherSuite, kex_reply, kex_err, kex_fresh}
//@use crate::crypto::p256::int256::{grown, lemma_grown_trans}
//@use crate::vshim::rand::RngCore as _
//@use crate::cipher::prf::p_hash
//@use crate::crypto::sha2::sha256_spec
//@use crate::handshake::{hs_ready, hs_value, CompressionMethod, NamedCurve, ECPointFormat, Extension}
//@use crate::signature::{SignatureAndHashAlgorithm, HashAlgorithm, SignatureAlgorithm}
//@inherent <TlsClient < R , W > as Read>
//@inherent <TlsClient < R , W > as Write>
//@spec
broadcast use crate::tls_result::axiom_question;
impl<R: Read, W: Write> TlsClient<R, W> {
    pub open spec fn ready(&self) -> bool { self.reader.ready() && self.writer.ready() }
    pub open spec fn open_for_data(&self) -> bool { self.ready() && self.reader.rkey() is Some && self.writer.wkey() is Some }
    pub open spec fn same_reader(&self, o: &Self) -> bool { self.reader == o.reader && self.buf == o.buf }
}
// ---- C18: what the application reads
// `n` steps of the record layer, all of them application data
pub open spec fn app_bytes(key: Option<Seq<u8>>, iv: Seq<u8>, t: St, n: nat) -> Option<(Seq<u8>, St)>
    decreases n
{
    if n == 0 { Some((Seq::empty(), t)) } else {
        match app_bytes(key, iv, t, (n - 1) as nat) {
            None => None,
            Some((d, u)) => match app_next(key, iv, u) { (AppOut::Data(x), v) => Some((d + x, v)), _ => None },
        }
    }
}
// the reader got from `t` to `u` over exactly the application data `d`
pub open spec fn app_run(key: Option<Seq<u8>>, iv: Seq<u8>, t: St, d: Seq<u8>, u: St) -> bool { exists|n: nat| #[trigger] app_bytes(key, iv, t, n) == Some((d, u)) }
proof fn lemma_run_step(key: Option<Seq<u8>>, iv: Seq<u8>, t: St, d: Seq<u8>, u: St)
    requires app_run(key, iv, t, d, u), app_next(key, iv, u).0 is Data
    ensures app_run(key, iv, t, d + app_next(key, iv, u).0->Data_0, app_next(key, iv, u).1)
{
    let n = choose|n: nat| #[trigger] app_bytes(key, iv, t, n) == Some((d, u));
    assert(app_bytes(key, iv, t, n + 1) == Some((d + app_next(key, iv, u).0->Data_0, app_next(key, iv, u).1)));
}
// what one read, or a part of it, did: `got` was delivered, `d` was taken from the records, the connection stopped or not
pub open spec fn read_run<R: Read, W: Write>(o: &TlsClient<R, W>, f: &TlsClient<R, W>, got: Seq<u8>, d: Seq<u8>, u: St, stopped: bool) -> bool {
    let (key, iv) = (o.reader.rkey(), o.reader.riv());
    &&& f.writer == o.writer && reader_frame(&o.reader, &f.reader) && (o.reader.closed ==> f.reader.closed)
    // no data lost, invented, repeated or reordered
    &&& o.buf@ + d == got + f.buf@ && app_run(key, iv, o.reader.st(), d, u)
    // nothing is delivered after the peer has closed the connection
    &&& o.reader.closed ==> d.len() == 0
    &&& !stopped ==> f.reader.st() == u && f.reader.closed == o.reader.closed
    // short only if the stream ended, failed or was closed
    &&& stopped ==> f.buf@.len() == 0 && (o.reader.closed || o.reader.reader.fails() || !(app_next(key, iv, u).0 is Data))
    &&& stopped && !o.reader.reader.fails() && (app_next(key, iv, u).0 is Closed || app_next(key, iv, u).0 is Fatal) ==> f.reader.closed
}
proof fn lemma_run_more(key: Option<Seq<u8>>, iv: Seq<u8>, t: St, d: Seq<u8>, u: St, e: Seq<u8>, v: St, n: nat)
    requires app_run(key, iv, t, d, u), app_bytes(key, iv, u, n) == Some((e, v))
    ensures app_run(key, iv, t, d + e, v)
    decreases n
{
    if n == 0 { assert(d + e =~= d); } else {
        let (x, w) = app_bytes(key, iv, u, (n - 1) as nat)->0;
        lemma_run_more(key, iv, t, d, u, x, w, (n - 1) as nat);
        lemma_run_step(key, iv, t, d + x, w);
        assert((d + x) + app_next(key, iv, w).0->Data_0 =~= d + e);
    }
}
// any history of reads delivers what one read of the total size delivers
pub proof fn lemma_reads<R: Read, W: Write>(a: &TlsClient<R, W>, b: &TlsClient<R, W>, c: &TlsClient<R, W>, got: Seq<u8>, d: Seq<u8>, u: St, got2: Seq<u8>, d2: Seq<u8>, u2: St, stopped: bool)
    requires read_run(a, b, got, d, u, false), read_run(b, c, got2, d2, u2, stopped)
    ensures read_run(a, c, got + got2, d + d2, u2, stopped)
{
    let (key, iv) = (a.reader.rkey(), a.reader.riv());
    lemma_suffix(a.reader.reader.rem());
    let n = choose|n: nat| #[trigger] app_bytes(key, iv, u, n) == Some((d2, u2));
    lemma_run_more(key, iv, a.reader.st(), d, u, d2, u2, n);
    assert(a.buf@ + (d + d2) =~= (a.buf@ + d) + d2);
    assert((got + b.buf@) + d2 =~= got + (b.buf@ + d2));
    assert(got + (got2 + c.buf@) =~= (got + got2) + c.buf@);
}
//@fn copy_memory
    requires from@.len() == old(to)@.len()
    ensures r == from@.len(), final(to)@ == from@
//@hint start
    proof { assert(from@.subrange(0, from@.len() as int) =~= from@); }
//@spec
proof fn lemma_alert(a: alert::Alert)
    ensures a.enc() == seq![AlertLevel_num(a.level) as u8, AlertDescription_num(a.description) as u8]
{ assert(a.enc() =~= seq![AlertLevel_num(a.level) as u8, AlertDescription_num(a.description) as u8]); }
// a record of what send_tls_alert did to the writer: `o` before, `f` after.  It can only be introduced at the end of that
// function, so a caller whose contract mentions it has called it
pub uninterp spec fn reported<R: Read, W: Write>(o: &TlsClient<R, W>, f: &TlsClient<R, W>, err: TlsError, r: TlsError) -> bool;
pub open spec fn alert_step<R: Read, W: Write>(o: &TlsClient<R, W>, f: &TlsClient<R, W>, err: TlsError, r: TlsError) -> bool {
    &&& err.kind == TlsErrorKind::IoFailure ==> f.writer == o.writer && r == err
    &&& err.kind != TlsErrorKind::IoFailure ==> writer_step(&o.writer, &f.writer, 21, seq![2u8, err_alert(err.kind) as u8], if r == err { Ok(()) } else { Err(r) })
}
#[verifier::external_body]
proof fn record_report<R: Read, W: Write>(o: &TlsClient<R, W>, f: &TlsClient<R, W>, err: TlsError, r: TlsError)
    requires alert_step(o, f, err, r)
    ensures reported(o, f, err, r)
{ unimplemented!() }
//@fn TlsClient < R , W >::send_tls_alert
    requires old(self).ready()
    ensures
        final(self).same_reader(&*old(self)), final(self).ready(),
        alert_step(&*old(self), &*final(self), err, r), reported(&*old(self), &*final(self), err, r),
//@hint ret
    proof { record_report(&*old(self), &*self, err, __ret); }
//@hint before /let result =/
    proof { lemma_alert(alert); }
//@fn TlsClient < R , W >::close
    requires old(self).ready()
    ensures final(self).same_reader(&*old(self)), final(self).ready(), writer_step(&old(self).writer, &final(self).writer, 21, seq![2u8, 0u8], r),
//@hint before /self \. writer \. write_alert/
    proof { lemma_alert(alert_data); }
//@fn <TlsClient < R , W > as Write>::write_all
    requires old(self).open_for_data()
    ensures
        final(self).same_reader(&*old(self)), final(self).open_for_data(),
        r is Ok ==> writer_step(&old(self).writer, &final(self).writer, 23, buf@, Ok(())),
        r is Err ==> exists|e: TlsError| writer_step(&old(self).writer, &final(self).writer, 23, buf@, Err(e)),
//@fn <TlsClient < R , W > as Write>::write
    requires old(self).open_for_data()
    ensures
        final(self).same_reader(&*old(self)), final(self).open_for_data(),
        r matches Ok(n) ==> n == buf@.len() && writer_step(&old(self).writer, &final(self).writer, 23, buf@, Ok(())),
        r is Err ==> exists|e: TlsError| writer_step(&old(self).writer, &final(self).writer, 23, buf@, Err(e)),
//@fn <TlsClient < R , W > as Write>::flush
    ensures *final(self) == *old(self), r is Ok,
//@fn <TlsClient < R , W > as Read>::read
    requires old(self).ready(), old(self).reader.rkey() is Some
    ensures
        final(self).ready(), final(buf)@.len() == old(buf)@.len(),
        r matches Ok(n) && n <= old(buf)@.len() && {
            let (got, short) = (final(buf)@.subrange(0, n as int), n < old(buf)@.len());
            &&& exists|d: Seq<u8>, u: St| #[trigger] read_run(&*old(self), &*final(self), got, d, u, short)
            &&& forall|i: int| n <= i < old(buf)@.len() ==> final(buf)@[i] == old(buf)@[i]
        },
//@attr #[verifier::loop_isolation(true)]
//@hint start
    let ghost b0 = buf@;
    let ghost mut d: Seq<u8> = Seq::empty();
    let ghost mut u: St = self.reader.st();
    let ghost (key, giv) = (self.reader.rkey(), self.reader.riv());
    proof {
        lemma_suffix(self.reader.reader.rem());
        assert(app_bytes(key, giv, u, 0) == Some((d, u)));
        assert(self.buf@ + d =~= buf@.subrange(0, 0) + self.buf@);
    }
//@loop 0
        invariant_except_break
            read_run(&*old(self), &*self, buf@.subrange(0, pos as int), d, u, false),
        invariant
            len == b0.len(), buf@.len() == len, pos <= len, self.ready(), old(self).reader.rkey() == key, old(self).reader.riv() == giv, key is Some,
            self.reader.rkey() == key, self.reader.riv() == giv,
            forall|i: int| pos <= i < len ==> buf@[i] == b0[i],
        ensures read_run(&*old(self), &*self, buf@.subrange(0, pos as int), d, u, pos < len),
        decreases len - pos
//@hint loop 0 after
    let ghost short = pos < len;
    proof { assert(read_run(&*old(self), &*self, buf@.subrange(0, pos as int), d, u, short)); assert(pos <= len && len == b0.len() && forall|i: int| pos <= i < len ==> buf@[i] == b0[i]); assert(b0 == old(buf)@); }
//@hint ret
    proof {
        assert(__ret matches Ok(n) && n == pos);
        let (got, sh) = (buf@.subrange(0, __ret->Ok_0 as int), __ret->Ok_0 < old(buf)@.len());
        assert(read_run(&*old(self), &*self, got, d, u, sh));
        assert(forall|i: int| __ret->Ok_0 <= i < old(buf)@.len() ==> buf@[i] == old(buf)@[i]);
    }
//@hint before /let data = match/
    proof { lemma_suffix(old(self).reader.reader.rem()); }
//@hint before /self \. buf \. v_extend/
    proof {
        lemma_run_step(key, giv, old(self).reader.st(), d, u);
        d = d + data@;
        u = self.reader.st();
    }
//@hint before /copy_memory/
    let ghost (bb, sb) = (buf@, self.buf@);
//@hint loop 0 end
    proof {
        assert(buf@.subrange(0, pos as int) =~= bb.subrange(0, pos - necessary) + sb.subrange(0, necessary as int));
        assert(sb =~= sb.subrange(0, necessary as int) + self.buf@);
        assert(old(self).buf@ + d =~= buf@.subrange(0, pos as int) + self.buf@);
    }
//@spec
// ---- C16, C17: the handshake
pub open spec fn l_master() -> Seq<u8> { seq![109u8, 97u8, 115u8, 116u8, 101u8, 114u8, 32u8, 115u8, 101u8, 99u8, 114u8, 101u8, 116u8] }
pub open spec fn l_keys() -> Seq<u8> { seq![107u8, 101u8, 121u8, 32u8, 101u8, 120u8, 112u8, 97u8, 110u8, 115u8, 105u8, 111u8, 110u8] }
pub open spec fn l_client() -> Seq<u8> { seq![99u8, 108u8, 105u8, 101u8, 110u8, 116u8, 32u8, 102u8, 105u8, 110u8, 105u8, 115u8, 104u8, 101u8, 100u8] }
pub open spec fn l_server() -> Seq<u8> { seq![115u8, 101u8, 114u8, 118u8, 101u8, 114u8, 32u8, 102u8, 105u8, 110u8, 105u8, 115u8, 104u8, 101u8, 100u8] }
// RFC 5246, 8.1 and 6.3 (no MAC keys; RFC 7905: 32-byte keys, 12-byte IVs)
pub open spec fn master_of(pms: Seq<u8>, cr: Seq<u8>, sr: Seq<u8>) -> Seq<u8> { p_hash(pms, l_master() + cr + sr, 48) }
pub open spec fn key_block(master: Seq<u8>, cr: Seq<u8>, sr: Seq<u8>) -> Seq<u8> { p_hash(master, l_keys() + sr + cr, 88) }
pub open spec fn finished_of(master: Seq<u8>, label: Seq<u8>, msgs: Seq<u8>) -> Seq<u8> { p_hash(master, label + sha256_spec(msgs), 12) }
// what the client offers
pub open spec fn hello_ok(h: Handshake, cr: Seq<u8>) -> bool {
    h is client_hello && cr.len() == 32 && {
        let c = h->client_hello_0;
        &&& c.client_version.major == 3 && c.client_version.minor == 3 && c.random.0@ == cr && c.session_id.0@.len() == 0
        &&& c.cipher_suites.0@ == seq![CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256] && c.compression_methods.0@ == seq![CompressionMethod::null]
        &&& c.extensions matches Some(x) && offer(x.0@)
    }
}
pub open spec fn offer(x: Seq<Extension>) -> bool {
    &&& x.len() == 3
    &&& x[0] is elliptic_curves && x[0]->elliptic_curves_0.0@ == seq![NamedCurve::secp256r1]
    &&& x[1] is ec_point_formats && x[1]->ec_point_formats_0.0@ == seq![ECPointFormat::uncompressed]
    &&& x[2] is signature_algorithms && x[2]->signature_algorithms_0.0@ == seq![SignatureAndHashAlgorithm { hash: HashAlgorithm::sha256, signature: SignatureAlgorithm::rsa }]
}
pub open spec fn server_hello_ok(h: Handshake) -> bool {
    h is server_hello && {
        let s = h->server_hello_0;
        s.server_version.major == 3 && s.server_version.minor == 3 && s.cipher_suite is TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256 && s.compression_method is null
    }
}
// a handshake as far as it went: n steps, what was sent and received, the bytes sent (o1..o4) and records counted (c1..c4)
// after each sending step, the reader (r1..r6) after each receiving one
pub struct Hsk {
    pub n: int,
    pub cr: Seq<u8>, pub ch: Handshake, pub sh: Handshake, pub cert: Handshake, pub ske: Handshake, pub shd: Handshake, pub cke: Handshake, pub fin: Handshake, pub sfin: Handshake,
    pub share: Seq<u8>, pub pms: Seq<u8>,
    pub o1: Seq<u8>, pub o2: Seq<u8>, pub o3: Seq<u8>, pub o4: Seq<u8>, pub c1: u64, pub c2: u64, pub c3: u64, pub c4: u64,
    pub r1: St, pub r2: St, pub r3: St, pub r4: St, pub r5: St, pub r6: St,
}
impl Hsk {
    pub open spec fn sr(&self) -> Seq<u8> { self.sh->server_hello_0.random.0@ }
    pub open spec fn ske_data(&self) -> Seq<u8> { self.ske->server_key_exchange_0.0@ }
    pub open spec fn master(&self) -> Seq<u8> { master_of(self.pms, self.cr, self.sr()) }
    pub open spec fn kb(&self) -> Seq<u8> { key_block(self.master(), self.cr, self.sr()) }
    pub open spec fn wkey(&self) -> Seq<u8> { self.kb().subrange(0, 32) }
    pub open spec fn rkey(&self) -> Seq<u8> { self.kb().subrange(32, 64) }
    pub open spec fn wiv(&self) -> Seq<u8> { self.kb().subrange(64, 76) }
    pub open spec fn riv(&self) -> Seq<u8> { self.kb().subrange(76, 88) }
    pub open spec fn msgs(&self) -> Seq<u8> { self.ch.enc() + self.sh.enc() + self.cert.enc() + self.ske.enc() + self.shd.enc() + self.cke.enc() }
}
pub open spec fn mark(t: Hsk) -> bool { true }
pub open spec fn no_iv() -> Seq<u8> { Seq::empty() }
#[verifier::opaque]
pub open spec fn hs_steps<R: Read, W: Write>(o: &TlsClient<R, W>, t: Hsk) -> bool {
    &&& 0 <= t.n <= 10
    // ClientHello sent
    &&& hello_ok(t.ch, t.cr)
    &&& t.n >= 1 ==> data_sent(None, no_iv(), o.writer.write_count, 22, t.ch.enc(), o.writer.writer.out(), t.o1, t.c1)
    // ServerHello, Certificate, ServerKeyExchange, ServerHelloDone received
    &&& t.n >= 2 ==> next(None, no_iv(), o.reader.st()) == (Out::Hs(t.sh.enc()), t.r1) && server_hello_ok(t.sh)
    &&& t.n >= 3 ==> next(None, no_iv(), t.r1) == (Out::Hs(t.cert.enc()), t.r2) && t.cert is certificate
    &&& t.n >= 4 ==> next(None, no_iv(), t.r2) == (Out::Hs(t.ske.enc()), t.r3) && t.ske is server_key_exchange && kex_reply(t.ske_data(), t.share, t.pms)
    &&& t.n >= 5 ==> next(None, no_iv(), t.r3) == (Out::Hs(t.shd.enc()), t.r4) && t.shd is server_hello_done
    // ClientKeyExchange, ChangeCipherSpec sent
    &&& t.n >= 6 ==> t.cke is client_key_exchange && t.cke->client_key_exchange_0.0@ == t.share && data_sent(None, no_iv(), t.c1, 22, t.cke.enc(), t.o1, t.o2, t.c2)
    &&& t.n >= 7 ==> data_sent(None, no_iv(), t.c2, 20, seq![1u8], t.o2, t.o3, t.c3)
    // Finished sent, under the new key, from record 0
    &&& t.n >= 8 ==> t.fin is finished && t.fin->finished_0.0@ == finished_of(t.master(), l_client(), t.msgs()) && data_sent(Some(t.wkey()), t.wiv(), 0, 22, t.fin.enc(), t.o3, t.o4, t.c4)
    // ChangeCipherSpec received
    &&& t.n >= 9 ==> next(None, no_iv(), t.r4) == (Out::Ccs, t.r5)
    // Finished received, under the new key, from record 0, and it is the right one
    &&& t.n >= 10 ==> next(Some(t.rkey()), t.riv(), St { k: 0, ..t.r5 }) == (Out::Hs(t.sfin.enc()), t.r6) && t.sfin is finished
        && t.sfin->finished_0.0@ == finished_of(t.master(), l_server(), t.msgs() + t.fin.enc())
}
// the writer has sent `out` in all and is under this key
pub open spec fn writer_is<R: Read, W: Write>(f: &TlsClient<R, W>, key: Option<Seq<u8>>, iv: Seq<u8>, out: Seq<u8>, c: u64) -> bool {
    f.writer.wkey() == key && f.writer.wiv() == iv && f.writer.writer.out() == out && f.writer.write_count == c
}
// the reader in state t has no handshake message to give
pub open spec fn no_hs(key: Option<Seq<u8>>, iv: Seq<u8>, t: St, fails: bool, e: TlsErrorKind) -> bool {
    ||| next_err(key, iv, t, fails, e)
    ||| e == TlsErrorKind::AlertReceived && next(key, iv, t).0 is Alert
    ||| e == TlsErrorKind::UnexpectedMessage && (next(key, iv, t).0 is Ccs || next(key, iv, t).0 is App)
}
// why step n + 1 could not be made, and that nothing was sent in it
pub open spec fn hs_stop<R: Read, W: Write>(o: &TlsClient<R, W>, f: &TlsClient<R, W>, t: Hsk, e: TlsErrorKind) -> bool {
    let (rf, wf) = (o.reader.reader.fails(), o.writer.writer.wfails());
    let (out, c) = (f.writer.writer.out(), f.writer.write_count);
    &&& t.n < 10
    &&& t.n == 0 ==> e == TlsErrorKind::IoFailure && wf && data_partly_sent(None, no_iv(), o.writer.write_count, 22, t.ch.enc(), o.writer.writer.out(), out, c)
    &&& 1 <= t.n <= 4 ==> writer_is(f, None, no_iv(), t.o1, t.c1)
    &&& t.n == 1 ==> {
        ||| no_hs(None, no_iv(), o.reader.st(), rf, e)
        ||| next(None, no_iv(), o.reader.st()).0 is Hs && exists|v: Handshake| #[trigger] hs_value(next(None, no_iv(), o.reader.st()).0->Hs_0, v) && if v is server_hello { !server_hello_ok(v) && e == TlsErrorKind::IllegalParameter } else { e == TlsErrorKind::UnexpectedMessage }
    }
    &&& t.n == 2 ==> {
        ||| no_hs(None, no_iv(), t.r1, rf, e)
        ||| next(None, no_iv(), t.r1).0 is Hs && exists|v: Handshake| #[trigger] hs_value(next(None, no_iv(), t.r1).0->Hs_0, v) && !(v is certificate) && e == TlsErrorKind::UnexpectedMessage
    }
    &&& t.n == 3 ==> {
        ||| no_hs(None, no_iv(), t.r2, rf, e)
        ||| next(None, no_iv(), t.r2).0 is Hs && exists|v: Handshake| #[trigger] hs_value(next(None, no_iv(), t.r2).0->Hs_0, v) && if v is server_key_exchange { kex_err(v->server_key_exchange_0.0@, e) } else { e == TlsErrorKind::UnexpectedMessage }
    }
    &&& t.n == 4 ==> {
        ||| no_hs(None, no_iv(), t.r3, rf, e)
        ||| next(None, no_iv(), t.r3).0 is Hs && exists|v: Handshake| #[trigger] hs_value(next(None, no_iv(), t.r3).0->Hs_0, v) && !(v is server_hello_done) && e == TlsErrorKind::UnexpectedMessage
    }
    &&& t.n == 5 ==> e == TlsErrorKind::IoFailure && wf && data_partly_sent(None, no_iv(), t.c1, 22, t.cke.enc(), t.o1, out, c) && t.cke is client_key_exchange && t.cke->client_key_exchange_0.0@ == t.share
    &&& t.n == 6 ==> e == TlsErrorKind::IoFailure && wf && data_partly_sent(None, no_iv(), t.c2, 20, seq![1u8], t.o2, out, c)
    &&& t.n == 7 ==> e == TlsErrorKind::IoFailure && wf && data_partly_sent(Some(t.wkey()), t.wiv(), 0, 22, t.fin.enc(), t.o3, out, c)
        && t.fin is finished && t.fin->finished_0.0@ == finished_of(t.master(), l_client(), t.msgs())
    &&& 8 <= t.n ==> writer_is(f, Some(t.wkey()), t.wiv(), t.o4, t.c4)
    &&& t.n == 8 ==> next_err(None, no_iv(), t.r4, rf, e)
        || (e == TlsErrorKind::UnexpectedMessage && (next(None, no_iv(), t.r4).0 is Alert || next(None, no_iv(), t.r4).0 is Hs || next(None, no_iv(), t.r4).0 is App))
    &&& t.n == 9 ==> {
        ||| no_hs(Some(t.rkey()), t.riv(), St { k: 0, ..t.r5 }, rf, e)
        ||| next(Some(t.rkey()), t.riv(), St { k: 0, ..t.r5 }).0 is Hs && exists|v: Handshake| #[trigger] hs_value(next(Some(t.rkey()), t.riv(), St { k: 0, ..t.r5 }).0->Hs_0, v) && if v is finished { v->finished_0.0@ != finished_of(t.master(), l_server(), t.msgs() + t.fin.enc()) && e == TlsErrorKind::DecryptError } else { e == TlsErrorKind::UnexpectedMessage }
    }
}
// after a completed handshake
pub open spec fn hs_open<R: Read, W: Write>(f: &TlsClient<R, W>, t: Hsk) -> bool {
    &&& writer_is(f, Some(t.wkey()), t.wiv(), t.o4, t.c4)
    &&& f.reader.rkey() == Some(t.rkey()) && f.reader.riv() == t.riv() && f.reader.st() == t.r6
}
pub open spec fn hs_result<R: Read, W: Write>(o: &TlsClient<R, W>, f: &TlsClient<R, W>, r: TlsResult<()>) -> bool {
    exists|t: Hsk| #[trigger] mark(t) && hs_steps(o, t) && (r is Ok ==> t.n == 10 && hs_open(f, t)) && (r matches Err(e) ==> hs_stop(o, f, t, e.kind))
}
// the client random is what the random source delivered first, and the private key comes from what it delivered next
pub open spec fn hs_fresh<R: Read, W: Write>(o: &TlsClient<R, W>, f: &TlsClient<R, W>, t: Hsk) -> bool {
    let g = o.rng.drawn() + t.cr;
    grown(g, f.rng.drawn()) && (t.n >= 4 ==> kex_fresh(g, f.rng.drawn(), t.ske_data(), t.share, t.pms))
}
pub open spec fn hs_random<R: Read, W: Write>(o: &TlsClient<R, W>, f: &TlsClient<R, W>) -> bool {
    exists|t: Hsk| #[trigger] mark(t) && hs_steps(o, t) && hs_fresh(o, f, t)
}
// while nothing is encrypted, the IV does not matter
proof fn lemma_plain_for(iv: Seq<u8>, jv: Seq<u8>, t: St, fails: bool, e: TlsErrorKind)
    ensures next(None, iv, t) == next(None, jv, t), next_err(None, iv, t, fails, e) == next_err(None, jv, t, fails, e)
    decreases t.s.len()
{
    reveal(rec_open);
    if !hs_ready(t.b) && rec_next(None, iv, t.k as u64, t.s) is Some {
        let n = rec_next(None, iv, t.k as u64, t.s)->0;
        assert(rec_next(None, jv, t.k as u64, t.s) == Some(n));
        let u = St { k: t.k + 1, s: skip(t.s, n.used), ..t };
        if n.ct == 22 && n.p.len() > 0 {
            lemma_plain_for(iv, jv, St { b: t.b + n.p, ..u }, fails, e);
        }
    }
}
proof fn lemma_plain(iv: Seq<u8>, jv: Seq<u8>, t: St, fails: bool)
    ensures next(None, iv, t) == next(None, jv, t), forall|e: TlsErrorKind| #[trigger] next_err(None, iv, t, fails, e) == next_err(None, jv, t, fails, e)
{
    lemma_plain_for(iv, jv, t, fails, TlsErrorKind::IoFailure);
    assert forall|e: TlsErrorKind| #[trigger] next_err(None, iv, t, fails, e) == next_err(None, jv, t, fails, e) by { lemma_plain_for(iv, jv, t, fails, e); }
}
proof fn lemma_fails_for(key: Option<Seq<u8>>, iv: Seq<u8>, t: St, e: TlsErrorKind)
    requires next_err(key, iv, t, false, e)
    ensures next_err(key, iv, t, true, e)
    decreases t.s.len()
{
    if !hs_ready(t.b) && rec_next(key, iv, t.k as u64, t.s) is Some {
        let n = rec_next(key, iv, t.k as u64, t.s)->0;
        let u = St { k: t.k + 1, s: skip(t.s, n.used), ..t };
        if n.ct == 22 && n.p.len() > 0 { lemma_fails_for(key, iv, St { b: t.b + n.p, ..u }, e); }
    }
}
proof fn lemma_fails(key: Option<Seq<u8>>, iv: Seq<u8>, t: St, now: bool, then: bool)
    requires now ==> then
    ensures forall|e: TlsErrorKind| #[trigger] next_err(key, iv, t, now, e) ==> next_err(key, iv, t, then, e)
{
    assert forall|e: TlsErrorKind| #[trigger] next_err(key, iv, t, now, e) implies next_err(key, iv, t, then, e) by { if now != then { lemma_fails_for(key, iv, t, e); } }
}
proof fn lemma_single<T: TlsItem>(x: T)
    ensures flat(seq![x]) == x.enc(), x.fits() ==> all_fit(seq![x]), x.known() ==> all_known(seq![x])
{
    lemma_flat_push(Seq::<T>::empty(), x);
    assert(Seq::<T>::empty().push(x) =~= seq![x]);
    assert(flat(Seq::<T>::empty()) + x.enc() =~= x.enc());
}
proof fn lemma_offer(x: Seq<Extension>)
    requires offer(x)
    ensures all_fit(x), all_known(x), flat(x).len() == 22
{
    lemma_single(NamedCurve::secp256r1);
    lemma_single(ECPointFormat::uncompressed);
    lemma_single(SignatureAndHashAlgorithm { hash: HashAlgorithm::sha256, signature: SignatureAlgorithm::rsa });
    assert(x[0].fits() && x[0].known() && x[0].enc().len() == 8);
    assert(x[1].fits() && x[1].known() && x[1].enc().len() == 6);
    assert(x[2].fits() && x[2].known() && x[2].enc().len() == 8);
    lemma_flat_push(seq![x[0], x[1]], x[2]);
    lemma_flat_push(seq![x[0]], x[1]);
    lemma_single(x[0]);
    assert(seq![x[0], x[1]] =~= seq![x[0]].push(x[1]));
    assert(x =~= seq![x[0], x[1]].push(x[2]));
}
proof fn lemma_hello(h: Handshake, cr: Seq<u8>)
    requires hello_ok(h, cr)
    ensures h.fits(), h.known(), h.enc().len() < 100
{
    lemma_offer((h->client_hello_0.extensions->0).0@);
    lemma_single(CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256);
    lemma_single(CompressionMethod::null);
    lemma_flat_bytes(h->client_hello_0.session_id.0@);
}
// everything but an unknown cipher suite is known
proof fn lemma_known(h: Handshake)
    ensures h is server_hello && server_hello_ok(h) ==> h.known(), h is certificate ==> h.known()
{
    match h {
        Handshake::server_hello(s) => {
            if s.extensions is Some {
                let x = (s.extensions->0).0@;
                assert forall|i: int| 0 <= i < x.len() implies (#[trigger] x[i]).known() by {}
            }
        },
        Handshake::certificate(c) => {
            assert forall|i: int| 0 <= i < c.0@.len() implies (#[trigger] c.0@[i]).known() by { lemma_flat_bytes(c.0@[i].0@); }
        },
        _ => {},
    }
}
proof fn lemma_hs_sizes()
    ensures forall|h: Handshake| #[trigger] h.fits() ==> h.enc().len() <= 0x100_0003
{ assert forall|h: Handshake| #[trigger] h.fits() implies h.enc().len() <= 0x100_0003 by {} }
// the PRF has delivered the first `off` bytes of kb
#[verifier::opaque]
pub open spec fn prf_at(p: Prf, kb: Seq<u8>, off: int) -> bool { forall|i: int| 0 <= i < kb.len() - off ==> #[trigger] p.pending(i) == kb[off + i] }
proof fn lemma_prf_at(p: Prf, q: Prf, r: Seq<u8>, kb: Seq<u8>, off: int)
    requires
        prf_at(p, kb, off), 0 <= off, off + r.len() <= kb.len(),
        forall|i: int| 0 <= i < r.len() ==> r[i] == #[trigger] p.pending(i),
        forall|i: int| i >= 0 ==> #[trigger] q.pending(i) == p.pending(r.len() + i),
    ensures r == kb.subrange(off, off + r.len()), prf_at(q, kb, off + r.len())
{
    reveal(prf_at);
    assert forall|i: int| 0 <= i < r.len() implies r[i] == kb[off + i] by { assert(r[i] == p.pending(i)); }
    assert forall|i: int| 0 <= i < kb.len() - (off + r.len()) implies #[trigger] q.pending(i) == kb[off + r.len() + i] by { assert(q.pending(i) == p.pending(r.len() + i)); }
    assert(r =~= kb.subrange(off, off + r.len()));
}
//@fn TlsClient < R , W >::handshake
    requires old(self).ready(), old(self).reader.decryptor is None, old(self).reader.iv is None, old(self).writer.encryptor is None, old(self).writer.iv is None
    ensures final(self).ready(), final(self).buf == old(self).buf, final(self).reader.closed == old(self).reader.closed, hs_result(&*old(self), &*final(self), r),
        hs_random(&*old(self), &*final(self)), /* [C22] */
//@hint start
    let ghost mut tr: Hsk = arbitrary();
    let ghost (rf, wf) = (self.reader.reader.fails(), self.writer.writer.wfails());
    proof {
        let sig = SignatureAndHashAlgorithm { hash: HashAlgorithm::sha256, signature: SignatureAlgorithm::rsa };
        lemma_single(NamedCurve::secp256r1);
        lemma_single(ECPointFormat::uncompressed);
        lemma_single(sig);
        assert forall|x: Seq<NamedCurve>| #![trigger all_fit(x)] #![trigger flat(x)] x.len() == 1 && x[0] == NamedCurve::secp256r1 implies all_fit(x) && flat(x).len() == 2 && x == seq![NamedCurve::secp256r1] by { assert(x =~= seq![NamedCurve::secp256r1]); }
        assert forall|x: Seq<ECPointFormat>| #![trigger all_fit(x)] #![trigger flat(x)] x.len() == 1 && x[0] == ECPointFormat::uncompressed implies all_fit(x) && flat(x).len() == 1 && x == seq![ECPointFormat::uncompressed] by { assert(x =~= seq![ECPointFormat::uncompressed]); }
        assert forall|x: Seq<SignatureAndHashAlgorithm>| #![trigger all_fit(x)] #![trigger flat(x)] x.len() == 1 && x[0] == sig implies all_fit(x) && flat(x).len() == 2 && x == seq![sig] by { assert(x =~= seq![sig]); }
        assert forall|x: Seq<Extension>| #![trigger all_fit(x)] #![trigger flat(x)] offer(x) implies all_fit(x) && flat(x).len() == 22 by { lemma_offer(x); }
    }
//@hint before /self \. writer \. write_handshake/ #0
    proof {
        let g = self.rng.drawn();
        assert(g.subrange(0, g.len() as int) =~= g);
        assert(old(self).rng.drawn() + cli_random@ =~= g); // [C22]
        tr = Hsk { n: 0, cr: cli_random@, ch: client_hello, ..tr };
        lemma_hello(client_hello, cli_random@);
        assert(hs_steps(&*old(self), tr)) by { reveal(hs_steps); }
        assert(mark(tr));
    }
//@hint after /self \. writer \. write_handshake/ #0
    proof {
        tr = Hsk { n: 1, o1: self.writer.writer.out(), c1: self.writer.write_count, ..tr };
        assert(hs_steps(&*old(self), tr)) by { reveal(hs_steps); }
        assert(mark(tr));
        lemma_fails(None, no_iv(), self.reader.st(), self.reader.reader.fails(), rf);
    }
//@hint before /let certificate_list =/
    proof {
        let v = Handshake::server_hello(server_hello_data);
        lemma_known(v);
        tr = Hsk { n: 2, sh: v, r1: self.reader.st(), ..tr };
        assert(hs_steps(&*old(self), tr)) by { reveal(hs_steps); }
        assert(mark(tr));
        lemma_fails(None, no_iv(), self.reader.st(), self.reader.reader.fails(), rf);
    }
//@hint after /let certificate_list =/
    proof {
        let v = Handshake::certificate(certificate_list);
        lemma_known(v);
        tr = Hsk { n: 3, cert: v, r2: self.reader.st(), ..tr };
        assert(hs_steps(&*old(self), tr)) by { reveal(hs_steps); }
        assert(mark(tr));
        lemma_fails(None, no_iv(), self.reader.st(), self.reader.reader.fails(), rf);
    }
//@hint after /let \(key_data/
    proof {
        tr = Hsk { n: 4, ske: Handshake::server_key_exchange(server_key_ex_data), r3: self.reader.st(), share: key_data@, pms: pre_master_secret@, ..tr };
        assert(hs_steps(&*old(self), tr)) by { reveal(hs_steps); }
        assert(mark(tr));
        lemma_fails(None, no_iv(), self.reader.st(), self.reader.reader.fails(), rf);
    }
//@hint before /let client_key_exchange =/
    proof {
        tr = Hsk { n: 5, shd: Handshake::server_hello_done(DummyItem), r4: self.reader.st(), ..tr };
        assert(hs_steps(&*old(self), tr)) by { reveal(hs_steps); }
        assert(mark(tr));
    }
//@hint after /let client_key_exchange =/
    proof {
        tr = Hsk { cke: client_key_exchange, ..tr };
        assert(hs_steps(&*old(self), tr)) by { reveal(hs_steps); }
        assert(mark(tr));
    }
//@hint after /self \. writer \. write_handshake/ #1
    proof {
        tr = Hsk { n: 6, o2: self.writer.writer.out(), c2: self.writer.write_count, ..tr };
        assert(hs_steps(&*old(self), tr)) by { reveal(hs_steps); }
        assert(mark(tr));
    }
//@hint after /self \. writer \. write_change_cipher_spec/
    proof {
        tr = Hsk { n: 7, o3: self.writer.writer.out(), c3: self.writer.write_count, ..tr };
        assert(hs_steps(&*old(self), tr)) by { reveal(hs_steps); }
        assert(mark(tr));
    }
//@hint before /let mut prf =/ #0
    proof { assert(label_seed@ =~= l_master() + tr.cr + tr.sr()); }
//@hint after /let master_secret =/
    proof { assert(master_secret@ =~= tr.master()); }
//@hint before /let mut prf =/ #1
    proof { assert(label_seed@ =~= l_keys() + tr.sr() + tr.cr); }
//@hint after /let mut prf =/ #1
    let ghost kb = tr.kb();
    let ghost p0 = prf;
    proof { assert(kb == Seq::new(88, |i: int| prf.pending(i))); assert(prf_at(prf, kb, 0)) by { reveal(prf_at); } }
//@hint after /let write_key = prf/
    let ghost p1 = prf;
    proof { lemma_prf_at(p0, p1, write_key@, kb, 0); }
//@hint after /let read_key = prf/
    let ghost p2 = prf;
    proof { lemma_prf_at(p1, p2, read_key@, kb, 32); }
//@hint after /let write_iv =/
    let ghost p3 = prf;
    proof { lemma_prf_at(p2, p3, write_iv@, kb, 64); }
//@hint after /let read_iv =/
    proof { lemma_prf_at(p3, prf, read_iv@, kb, 76); }
//@hint before /let msgs =/
    proof { lemma_hs_sizes(); }
//@hint after /let msgs =/
    proof { assert(msgs@ =~= tr.msgs()); }
//@hint before /let mut prf =/ #2
    proof { assert(label_seed@ =~= l_client() + sha256_spec(tr.msgs())); }
//@hint after /let client_verify_data =/
    proof { assert(client_verify_data@ =~= finished_of(tr.master(), l_client(), tr.msgs())); }
//@hint before /self \. writer \. write_handshake/ #2
    proof {
        tr = Hsk { fin: finished, ..tr };
        assert(hs_steps(&*old(self), tr)) by { reveal(hs_steps); }
        assert(mark(tr));
    }
//@hint after /self \. writer \. write_handshake/ #2
    proof {
        tr = Hsk { n: 8, o4: self.writer.writer.out(), c4: self.writer.write_count, ..tr };
        assert(hs_steps(&*old(self), tr)) by { reveal(hs_steps); }
        assert(mark(tr));
        lemma_plain(self.reader.riv(), no_iv(), self.reader.st(), self.reader.reader.fails());
        lemma_fails(None, no_iv(), self.reader.st(), self.reader.reader.fails(), rf);
    }
//@hint after /self \. reader \. read_change_cipher_spec/
    proof {
        tr = Hsk { n: 9, r5: self.reader.st(), ..tr };
        assert(hs_steps(&*old(self), tr)) by { reveal(hs_steps); }
        assert(mark(tr));
    }
//@hint before /let server_finished =/
    proof { lemma_fails(Some(tr.rkey()), tr.riv(), self.reader.st(), self.reader.reader.fails(), rf); }
//@hint before /let mut prf =/ #3
    proof {
        assert(verify_hash@ == sha256_spec(tr.msgs() + tr.fin.enc()));
        assert(label_seed@ =~= l_server() + sha256_spec(tr.msgs() + tr.fin.enc()));
    }
//@hint before /let verify_ok =/
    proof { assert(server_verify_data@ =~= finished_of(tr.master(), l_server(), tr.msgs() + tr.fin.enc())); }
//@hint end
    proof {
        tr = Hsk { n: 10, sfin: Handshake::finished(server_finished), r6: self.reader.st(), ..tr };
        assert(hs_steps(&*old(self), tr)) by { reveal(hs_steps); }
        assert(mark(tr));
    }
//@spec
// a client made from a reader and a writer, before anything is sent
pub open spec fn fresh<R: Read, W: Write>(o: &TlsClient<R, W>, reader: R, writer: W) -> bool {
    &&& o.reader.reader == reader && o.reader.read_count == 0 && o.reader.handshake_buffer.buf@.len() == 0 && !o.reader.closed && o.reader.decryptor is None && o.reader.iv is None
    &&& o.writer.writer == writer && o.writer.write_count == 0 && o.writer.encryptor is None && o.writer.iv is None
    &&& o.buf@.len() == 0
}
//@fn TlsClient < R , W >::new
    ensures
        exists|o: TlsClient<R, W>, m: TlsClient<R, W>| #[trigger] fresh(&o, reader, writer) && o.rng == rng && #[trigger] hs_random(&o, &m) && (r matches Ok(c) ==> c == m), /* [C22] */
        r matches Ok(c) ==> c.open_for_data() && c.buf@.len() == 0 && !c.reader.closed && exists|o: TlsClient<R, W>| #[trigger] fresh(&o, reader, writer) && hs_result(&o, &c, Ok(())),
        // one alert for the error, on the state the handshake left, or none for a transport failure
        r matches Err(e) ==> exists|o: TlsClient<R, W>, m: TlsClient<R, W>, f: TlsClient<R, W>, err: TlsError|
            #[trigger] fresh(&o, reader, writer) && hs_result(&o, &m, Err(err)) && #[trigger] reported(&m, &f, err, e) && alert_step(&m, &f, err, e),
//@hint before /match client \. handshake/
    let ghost o = client;
    proof { assert(fresh(&o, reader, writer)); assert(o.rng == rng); /* [C22] */ }
