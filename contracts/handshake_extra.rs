//@module handshake
//@use crate::tls_result::{TlsError, TlsErrorKind}
//@spec
// ---- the handshake layer of a byte stream (RFC 5246, 7.4)
pub open spec fn hs_ready(b: Seq<u8>) -> bool { b.len() >= 4 && b.len() >= 4 + be24(b, 1) }
pub open spec fn hs_first(b: Seq<u8>) -> Seq<u8> { b.subrange(0, 4 + be24(b, 1) as int) }
pub open spec fn hs_after(b: Seq<u8>) -> Seq<u8> { b.subrange(4 + be24(b, 1) as int, b.len() as int) }
// a message that has to be accepted
pub open spec fn hs_must(m: Seq<u8>) -> bool { exists|v: Handshake| v.fits() && v.known() && #[trigger] v.enc() == m }
// what parsing the complete message `m` may give
pub open spec fn hs_value(m: Seq<u8>, v: Handshake) -> bool { v.fits() && v.enc().len() == m.len() && (v.known() ==> v.enc() == m) && (hs_must(m) ==> v.known()) }
pub open spec fn hs_parsed(m: Seq<u8>, r: TlsResult<Handshake>) -> bool {
    &&& r matches Ok(v) ==> hs_value(m, v)
    &&& r matches Err(e) ==> e.kind != TlsErrorKind::IoFailure && parse_err(e.kind)
    &&& forall|v: Handshake| v.fits() && v.known() && #[trigger] v.enc() == m ==> r is Ok && r->Ok_0.known()
}
proof fn lemma_want(b: Seq<u8>)
    requires b.len() >= 4
    ensures ({
        let (x, y, z) = (b[1] as usize, b[2] as usize, b[3] as usize);
        ((x << 16) | (y << 8)) | z == be24(b, 1) && (x << 16) | (y << 8) <= 0xffff00
    }), be24(b, 1) < 0x100_0000,
{
    let (p, q, w) = (b[1], b[2], b[3]);
    assert((((p as usize) << 16) | ((q as usize) << 8)) | (w as usize) == (((p as u32) << 16) | ((q as u32) << 8) | (w as u32)) as usize) by (bit_vector);
    assert((((p as u32) << 16) | ((q as u32) << 8) | (w as u32)) < 0x100_0000) by (bit_vector);
    assert((((p as usize) << 16) | ((q as usize) << 8)) <= 0xffff00) by (bit_vector);
}
//@fn HandshakeBuffer::new
    ensures r.buf@ == Seq::<u8>::empty(),
//@fn HandshakeBuffer::is_empty
    ensures r == (self.buf@.len() == 0),
//@fn HandshakeBuffer::add_record
    ensures final(self).buf@ == old(self).buf@ + fragment@,
//@fn HandshakeBuffer::get_message
    ensures
        !hs_ready(old(self).buf@) ==> final(self).buf@ == old(self).buf@ && (r matches Ok(m) && m is None),
        hs_ready(old(self).buf@) ==> {
            &&& final(self).buf@ == hs_after(old(self).buf@)
            &&& !(r matches Ok(m) && m is None)
            &&& hs_parsed(hs_first(old(self).buf@), match r { Ok(m) => Ok(m->Some_0), Err(e) => Err(e) })
        },
//@hint start
    let ghost b = old(self).buf@;
    let ghost m = hs_first(b);
    proof {
        if b.len() >= 4 { lemma_want(b); }
        if hs_ready(b) {
            assert(be24(m, 1) == be24(b, 1));
            assert(Handshake::framed(m));
            assert forall|v: Handshake| #[trigger] v.enc() == m implies starts(m, v.enc(), true) by { assert(m.subrange(0, m.len() as int) =~= m); }
            assert(m.subrange(0, m.len() as int) =~= m);
        }
    }
//@hint end
    proof { if hs_ready(b) { assert(message@ =~= m); assert((*reader)@ =~= m); assert(self.buf@ =~= hs_after(b)); } }
//@hint ret
    proof { assert(__ret is Ok ==> __ret->Ok_0 is Some); assert(hs_parsed(m, match __ret { Ok(m) => Ok(m->Some_0), Err(e) => Err(e) })); }
//@fn Handshake::new_client_hello
    requires random.fits(), all_fit(extensions@), flat(extensions@).len() <= 65535, cipher_suite.known()
    ensures r matches Ok(h) && h is client_hello && {
        let c = h->client_hello_0;
        &&& c.client_version.major == 3 && c.client_version.minor == 3 && c.random == random && c.session_id.0@.len() == 0
        &&& c.cipher_suites.0@ == seq![cipher_suite] && c.compression_methods.0@ == seq![CompressionMethod::null]
        &&& if extensions@.len() == 0 { c.extensions is None } else { c.extensions matches Some(x) && x.0@ == extensions@ }
    },
//@hint start
    proof {
        let s = seq![cipher_suite];
        let n = seq![CompressionMethod::null];
        lemma_flat_push(Seq::<CipherSuite>::empty(), cipher_suite);
        lemma_flat_push(Seq::<CompressionMethod>::empty(), CompressionMethod::null);
        assert(Seq::<CipherSuite>::empty().push(cipher_suite) =~= s);
        assert(Seq::<CompressionMethod>::empty().push(CompressionMethod::null) =~= n);
        assert forall|x: Seq<CipherSuite>| x.len() == 1 && x[0] == cipher_suite implies #[trigger] flat(x).len() == 2 by { assert(x =~= s); }
        assert forall|x: Seq<CompressionMethod>| x.len() == 1 && x[0] == CompressionMethod::null implies #[trigger] flat(x).len() == 1 by { assert(x =~= n); }
    }
//@fn Handshake::new_client_key_exchange
    ensures r matches Ok(h) && h is client_key_exchange && h->client_key_exchange_0.0@ == data@,
//@fn Handshake::new_finished
    ensures (r is Ok) == (data@.len() == 12), r matches Ok(h) ==> h is finished && h->finished_0.0@ == data@,
        r matches Err(e) ==> e.kind == TlsErrorKind::InternalError,
