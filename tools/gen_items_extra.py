# items whose shape is not one of the table's: cipher suites, extensions,
# handshake messages, EC parameters, and what is built from them

EXTRA['cipher'] = '''
//@impl <CipherSuite as TlsItem>
    open spec fn fits(&self) -> bool { true }
    open spec fn known(&self) -> bool { *self is TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256 }
    // RFC 7905
    open spec fn enc(&self) -> Seq<u8> { if *self is TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256 { seq![0xccu8, 0xa8u8] } else { seq![0u8, 0u8] } }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <CipherSuite as TlsItem>::tls_write
//@hint start
    proof {
        let o = old(writer).out();
        assert((o + seq![0xccu8]) + seq![0xa8u8] =~= o + seq![0xccu8, 0xa8u8]);
    }
//@fn <CipherSuite as TlsItem>::tls_read
//@hint start
    proof {
        let s = old(reader).rem();
        assert forall|v: Self| v.known() && #[trigger] starts(s, v.enc(), false) implies s.len() >= 2 && s[0] == 0xcc && s[1] == 0xa8 by {
            assert(s.subrange(0, 2)[0] == s[0] && s.subrange(0, 2)[1] == s[1]);
        }
    }
//@hint ret
    proof { if __ret is Ok { let s = old(reader).rem(); assert(reader.rem() =~= skip(s, 2)); if s[0] == 0xcc && s[1] == 0xa8 { assert(s.subrange(0, 2) =~= seq![0xccu8, 0xa8u8]); } } }
//@fn <CipherSuite as TlsItem>::tls_size
'''

_ext = []
e = _ext.append
e('//@spec')
e('pub open spec fn ext_type(x: Extension) -> u16 { match x { %s, Extension::Unknown(t, _) => t } }' % ', '.join('Extension::%s(_) => %d' % (n, k) for n, k, _ in EXTS))
e('pub open spec fn ext_body(x: Extension) -> Seq<u8> { match x { %s, Extension::Unknown(_, d) => d@ } }' % ', '.join('Extension::%s(b) => b.enc()' % n for n, _, _ in EXTS))
e('''//@impl <Extension as TlsItem>
    open spec fn fits(&self) -> bool { ext_body(*self).len() <= 65535 && match *self { %s, Extension::Unknown(t, _) => %s } }
    open spec fn known(&self) -> bool { match *self { %s, Extension::Unknown(_, _) => true } }
    open spec fn enc(&self) -> Seq<u8> { be16_bytes(ext_type(*self)) + (be16_bytes(ext_body(*self).len() as u16) + ext_body(*self)) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }''' % (', '.join('Extension::%s(b) => b.fits()' % n for n, _, _ in EXTS), ' && '.join('t != %d' % k for _, k, _ in EXTS),
                                                           ', '.join('Extension::%s(b) => b.known()' % n for n, _, _ in EXTS)))
e('''//@fn <Extension as TlsItem>::tls_write
//@hint ret
    proof { if self.known() && __ret is Ok { assert(writer.out() =~= old(writer).out() + self.enc()); } }
//@fn <Extension as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    let ghost s1 = skip(s, 2);
    let ghost s2 = skip(s1, 2);
    proof {
        lemma_int16(s);
        lemma_int16(s1);
        assert forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false)
            implies s.len() >= 4 && be16(s, 0) == ext_type(v) && be16(s1, 0) == ext_body(v).len() && starts(s2, ext_body(v), false) by {
            let n = be16_bytes(ext_body(v).len() as u16);
            lemma_cat(s, be16_bytes(ext_type(v)), n + ext_body(v));
            assert(starts(s, be16_bytes(ext_type(v)), false));
            assert(starts(s1, n + ext_body(v), false));
            lemma_cat(s1, n, ext_body(v));
            assert(starts(s1, n, false));
        }
    }
//@hint ret
    proof {
        if __ret is Ok {
            let v = __ret->Ok_0;
            assert(reader.rem().len() <= s2.len());
            let n = be16_bytes(ext_body(v).len() as u16);
            lemma_cat(s1, n, ext_body(v));
            lemma_cat(s, be16_bytes(ext_type(v)), n + ext_body(v));
            assert(s.subrange(0, 2) == be16_bytes(ext_type(v)));
            assert(s1.subrange(0, 2) == n);
            if v.known() { assert(starts(s2, ext_body(v), false)); }
            assert(reader.rem() =~= skip(s, v.enc().len() as int));
        }
    }
//@fn <Extension as TlsItem>::tls_size''')
for n, k, b in EXTS:
    item = VECS[('handshake' if ('handshake', b) in VECS else 'signature', b)]
    fn = {'elliptic_curves': 'new_elliptic_curve_list', 'ec_point_formats': 'new_ec_point_formats', 'signature_algorithms': 'new_signature_algorithm_list'}[n]
    e('''//@fn Extension::%s
    requires all_fit(list@), flat(list@).len() <= u64::MAX
    ensures (r is Ok) == (%d <= flat(list@).len() <= %d), r matches Ok(x) ==> x is %s && x->%s_0.0@ == list@,''' % (fn, item[1], item[2], n, n))
e('''//@impl <Option < ExtensionVec > as TlsItem>
    open spec fn fits(&self) -> bool { match *self { Some(x) => x.fits(), None => true } }
    open spec fn known(&self) -> bool { match *self { Some(x) => x.known(), None => true } }
    open spec fn enc(&self) -> Seq<u8> { match *self { Some(x) => x.enc(), None => Seq::empty() } }
    open spec fn greedy() -> bool { true }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <Option < ExtensionVec > as TlsItem>::tls_write
//@hint ret
    proof { if __ret is Ok && *self is None { assert(writer.out() =~= old(writer).out() + self.enc()); } }
//@fn <Option < ExtensionVec > as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    proof {
        assert(s.subrange(0, s.len() as int) =~= s);
        assert(skip(s, s.len() as int) =~= Seq::<u8>::empty());
        assert(Seq::<u8>::empty() + s =~= s);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), true) implies v.enc() == s && (s.len() == 0 ==> v is None) && (s.len() > 0 ==> v is Some && starts(s, v->Some_0.enc(), false)) by {
            assert(s.subrange(0, v.enc().len() as int) =~= s);
        }
    }
//@fn <Option < ExtensionVec > as TlsItem>::tls_size''')
EXTRA['handshake'] = '\n'.join(_ext)

_hs = []
e = _hs.append
e('//@spec')
e('pub open spec fn hs_type(x: Handshake) -> u8 { match x { %s } }' % ', '.join('Handshake::%s(_) => %d' % (n, k) for n, k, _ in HS))
e('pub open spec fn hs_body(x: Handshake) -> Seq<u8> { match x { %s } }' % ', '.join('Handshake::%s(b) => b.enc()' % n for n, _, _ in HS))
e('''pub proof fn lemma_hs_len(n: u64)
    requires n < 0x100_0000
    ensures ((n >> 16) & 0xff) as u8 == ((n as u32) >> 16) as u8, ((n >> 8) & 0xff) as u8 == ((n as u32) >> 8) as u8, (n & 0xff) as u8 == (n as u32) as u8
{
    assert(((n >> 16) & 0xff) as u8 == ((n as u32) >> 16) as u8 && ((n >> 8) & 0xff) as u8 == ((n as u32) >> 8) as u8 && (n & 0xff) as u8 == (n as u32) as u8) by (bit_vector)
        requires n < 0x100_0000;
}''')
e('pub open spec fn hs_starts(s: Seq<u8>, x: Handshake) -> bool { match x { %s } }' % ', '.join('Handshake::%s(b) => starts(s, b.enc(), %s)' % (n, 'true' if b == 'ObscureData' or STRUCTS.get(('handshake', b), (0, False))[1] else 'false') for n, _, b in HS))
e('''pub proof fn lemma_hs_write(o: Seq<u8>, v: Handshake)
    ensures ({
        let n = hs_body(v).len() as u32;
        ((((o + seq![hs_type(v)]) + seq![(n >> 16) as u8]) + seq![(n >> 8) as u8]) + seq![n as u8]) + hs_body(v) == o + v.enc()
    })
{
    let n = hs_body(v).len() as u32;
    let b = hs_body(v);
    assert(((((o + seq![hs_type(v)]) + seq![(n >> 16) as u8]) + seq![(n >> 8) as u8]) + seq![n as u8]) + b =~= o + (seq![hs_type(v)] + (be24_bytes(n) + b)));
}''')
e('''pub proof fn lemma_hs_start(s: Seq<u8>)
    ensures
        s.len() >= 4 ==> skip(skip(skip(skip(s, 1), 1), 1), 1) == skip(skip(s, 1), 3),
        forall|v: Handshake| v.fits() && #[trigger] starts(s, v.enc(), true)
            ==> s.len() >= 4 && s[0] == hs_type(v) && be24(s, 1) == hs_body(v).len() && hs_starts(skip(skip(s, 1), 3), v),
{
    let s1 = skip(s, 1);
    let s4 = skip(s1, 3);
    if s.len() >= 4 {
        lemma_int24(s1);
        assert(skip(s1, 1) =~= skip(s, 2) && skip(skip(s1, 1), 1) =~= skip(s, 3) && skip(skip(skip(s1, 1), 1), 1) =~= s4);
        assert(be24(s1, 0) == be24(s, 1));
    }
    assert forall|v: Handshake| v.fits() && #[trigger] starts(s, v.enc(), true)
        implies s.len() >= 4 && s[0] == hs_type(v) && be24(s, 1) == hs_body(v).len() && hs_starts(skip(skip(s, 1), 3), v) by {
        let n = be24_bytes(hs_body(v).len() as u32);
        lemma_cat(s, seq![hs_type(v)], n + hs_body(v));
        assert(starts(s, seq![hs_type(v)], false));
        assert(s.subrange(0, 1)[0] == s[0] && seq![hs_type(v)][0] == hs_type(v));
        assert(starts(s1, n + hs_body(v), true));
        lemma_cat(s1, n, hs_body(v));
        assert(starts(s1, n, false));
        assert(starts(s4, hs_body(v), true));
    }
}
pub proof fn lemma_hs_end(s: Seq<u8>, v: Handshake)
    requires s.len() >= 4, s.len() == 4 + be24(s, 1), s[0] == hs_type(v), hs_body(v).len() == s.len() - 4
    ensures v.enc().len() == s.len(), hs_body(v).len() < 0x100_0000, starts(skip(skip(s, 1), 3), hs_body(v), false) ==> starts(s, v.enc(), true)
{
    let s1 = skip(s, 1);
    let s4 = skip(s1, 3);
    lemma_int24(s1);
    assert(be24(s1, 0) == be24(s, 1));
    let n = be24_bytes(hs_body(v).len() as u32);
    lemma_cat(s1, n, hs_body(v));
    lemma_cat(s, seq![hs_type(v)], n + hs_body(v));
    assert(s.subrange(0, 1) =~= seq![hs_type(v)]);
    assert(s1.subrange(0, 3) == n);
}
''')
e('''//@impl <Handshake as TlsItem>
    open spec fn fits(&self) -> bool { hs_body(*self).len() < 0x100_0000 && match *self { %s } }
    open spec fn known(&self) -> bool { match *self { %s } }
    open spec fn enc(&self) -> Seq<u8> { seq![hs_type(*self)] + (be24_bytes(hs_body(*self).len() as u32) + hs_body(*self)) }
    open spec fn greedy() -> bool { true }
    // HandshakeBuffer passes one complete message
    open spec fn framed(s: Seq<u8>) -> bool { s.len() >= 4 && s.len() == 4 + be24(s, 1) }''' % (', '.join('Handshake::%s(b) => b.fits()' % n for n, _, _ in HS), ', '.join('Handshake::%s(b) => b.known()' % n for n, _, _ in HS)))
e('''//@fn <Handshake as TlsItem>::tls_write
//@hint start
    proof { lemma_hs_len(hs_body(*self).len() as u64); lemma_hs_write(old(writer).out(), *self); }
//@fn <Handshake as TlsItem>::tls_read
//@attr #[verifier::rlimit(80)]
//@hint start
    let ghost s = old(reader).rem();
    let ghost s4 = skip(skip(s, 1), 3);
    proof { lemma_hs_start(s); }
//@hint ret
    proof {
        if __ret is Ok && !old(reader).fails() && Self::framed(s) {
            let v = __ret->Ok_0;
            assert(reader.rem().len() == 0);
            assert(hs_body(v).len() == s4.len());
            lemma_hs_end(s, v);
            assert(reader.rem() =~= skip(s, v.enc().len() as int));
        }
    }
//@fn <Handshake as TlsItem>::tls_size''')
EXTRA['handshake'] += '\n' + '\n'.join(_hs)

EXTRA['cipher::ecdhe'] = '''
//@impl <EcParameters as TlsItem>
    open spec fn fits(&self) -> bool { match *self { EcParameters::named_curve(b) => b.fits() } }
    open spec fn known(&self) -> bool { match *self { EcParameters::named_curve(b) => b.known() } }
    open spec fn enc(&self) -> Seq<u8> { match *self { EcParameters::named_curve(b) => seq![3u8] + b.enc() } }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <EcParameters as TlsItem>::tls_write
//@hint ret
    proof { if self.known() && __ret is Ok { assert(writer.out() =~= old(writer).out() + self.enc()); } }
//@fn <EcParameters as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    let ghost s1 = skip(s, 1);
    proof {
        if s.len() >= 1 { assert(s.subrange(0, 1) =~= seq![s[0]]); }
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies s.len() >= 1 && s[0] == 3 && starts(s1, v->named_curve_0.enc(), false) by {
            let b = v->named_curve_0.enc();
            lemma_cat(s, seq![3u8], b);
            assert(starts(s, seq![3u8] + b, false));
            assert(starts(s, seq![3u8], false));
            assert(s.subrange(0, 1)[0] == s[0] && seq![3u8][0] == 3u8);
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let b = __ret->Ok_0->named_curve_0.enc(); lemma_cat(s, seq![3u8], b); assert(s.subrange(0, 1) == seq![3u8]); }
    }
//@fn <EcParameters as TlsItem>::tls_size
'''
