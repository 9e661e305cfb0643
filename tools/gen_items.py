#!/usr/bin/env python3
"""Writes contracts/items_gen.rs: the contracts of every protocol item, from a
table of the RFC 5246 / RFC 4492 presentation language.  The table is written
from the RFCs, not from the code; the code is what gets verified against it."""
import os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts', 'items_gen.rs')


def width(mx):
    return 1 if mx < 1 << 8 else 2 if mx < 1 << 16 else 3


# ------------------------------------------------------------- the RFC tables
ENUMS = {
    # RFC 5246 7.2
    ('alert', 'AlertLevel'): (1, [('warning', 1), ('fatal', 2)]),
    ('alert', 'AlertDescription'): (1, [
        ('close_notify', 0), ('unexpected_message', 10), ('bad_record_mac', 20), ('decryption_failed_RESERVED', 21), ('record_overflow', 22),
        ('decompression_failure', 30), ('handshake_failure', 40), ('no_certificate_RESERVED', 41), ('bad_certificate', 42),
        ('unsupported_certificate', 43), ('certificate_revoked', 44), ('certificate_expired', 45), ('certificate_unknown', 46),
        ('illegal_parameter', 47), ('unknown_ca', 48), ('access_denied', 49), ('decode_error', 50), ('decrypt_error', 51),
        ('export_restriction_RESERVED', 60), ('protocol_version', 70), ('insufficient_security', 71), ('internal_error', 80),
        ('user_canceled', 90), ('no_renegotiation', 100), ('unsupported_extension', 110),
        # RFC 6066
        ('certificate_unobtainable', 111), ('unrecognized_name', 112), ('bad_certificate_status_response', 113), ('bad_certificate_hash_value', 114)]),
    # RFC 5246 7.4.1.4.1
    ('signature', 'HashAlgorithm'): (1, [('none', 0), ('md5', 1), ('sha1', 2), ('sha224', 3), ('sha256', 4), ('sha384', 5), ('sha512', 6)]),
    ('signature', 'SignatureAlgorithm'): (1, [('anonymous', 0), ('rsa', 1), ('dsa', 2), ('ecdsa', 3)]),
    # RFC 3749
    ('handshake', 'CompressionMethod'): (1, [('null', 0), ('DEFLATE', 1)]),
    # RFC 4492 5.1.1
    ('handshake', 'NamedCurve'): (2, [(n, i + 1) for i, n in enumerate(
        'sect163k1 sect163r1 sect163r2 sect193r1 sect193r2 sect233k1 sect233r1 sect239k1 sect283k1 sect283r1 sect409k1 sect409r1 sect571k1 '
        'sect571r1 secp160k1 secp160r1 secp160r2 secp192k1 secp192r1 secp224k1 secp224r1 secp256k1 secp256r1 secp384r1 secp521r1'.split())]
        + [('arbitrary_explicit_prime_curves', 0xff01), ('arbitrary_explicit_char2_curves', 0xff02)]),
    ('handshake', 'ECPointFormat'): (1, [('uncompressed', 0), ('ansiX962_compressed_prime', 1), ('ansiX962_compressed_char2', 2)]),
    # RFC 5246 7.4.4
    ('handshake', 'ClientCertificateType'): (1, [
        ('rsa_sign', 1), ('dss_sign', 2), ('rsa_fixed_dh', 3), ('dss_fixed_dh', 4), ('rsa_ephemeral_dh_RESERVED', 5),
        ('dss_ephemeral_dh_RESERVED', 6), ('fortezza_dms_RESERVED', 20)]),
}
VECS = {
    ('signature', 'SignatureAndHashAlgorithmVec'): ('SignatureAndHashAlgorithm', 2, 65534),
    ('signature', 'Signature'): ('u8', 0, 65535),
    ('handshake', 'CipherSuiteVec'): ('CipherSuite', 2, 65534),
    ('handshake', 'CompressionMethodVec'): ('CompressionMethod', 1, 255),
    ('handshake', 'SessionId'): ('u8', 0, 32),
    ('handshake', 'Asn1Cert'): ('u8', 1, 2 ** 24 - 1),
    ('handshake', 'EllipticCurveList'): ('NamedCurve', 1, 65535),
    ('handshake', 'ECPointFormatList'): ('ECPointFormat', 1, 255),
    ('handshake', 'ExtensionVec'): ('Extension', 0, 65535),
    ('handshake', 'CertificateList'): ('Asn1Cert', 0, 2 ** 24 - 1),
    ('handshake', 'CertificiateTypeVec'): ('ClientCertificateType', 1, 255),
    ('handshake', 'DistinguishedName'): ('u8', 1, 65535),
    ('handshake', 'DistinguishedNameVec'): ('DistinguishedName', 0, 65535),
    ('cipher::ecdhe', 'EcData'): ('u8', 1, 255),
}
ARRAYS = {('handshake', 'Random'): 32, ('handshake', 'VerifyData'): 12}
# (fields in order, greedy)
STRUCTS = {
    ('alert', 'Alert'): (['level', 'description'], False),
    ('signature', 'SignatureAndHashAlgorithm'): (['hash', 'signature'], False),
    ('signature', 'DigitallySigned'): (['algorithm', 'signature'], False),
    ('handshake', 'ProtocolVersion'): (['major', 'minor'], False),
    ('handshake', 'ClientHello'): (['client_version', 'random', 'session_id', 'cipher_suites', 'compression_methods', 'extensions'], True),
    ('handshake', 'ServerHello'): (['server_version', 'random', 'session_id', 'cipher_suite', 'compression_method', 'extensions'], True),
    ('handshake', 'CertificateRequest'): (['certificate_types', 'supported_signature_algorithms', 'certificate_authorities'], False),
    ('cipher::ecdhe', 'EcCurve'): (['a', 'b'], False),
    ('cipher::ecdhe', 'ServerEcdhParams'): (['curve_params', 'public'], False),
    ('cipher::ecdhe', 'EcdheServerKeyExchange'): (['params', 'signed_params'], False),
}
EXTS = [('elliptic_curves', 10, 'EllipticCurveList'), ('ec_point_formats', 11, 'ECPointFormatList'), ('signature_algorithms', 13, 'SignatureAndHashAlgorithmVec')]
HS = [('hello_request', 0, 'DummyItem'), ('client_hello', 1, 'ClientHello'), ('server_hello', 2, 'ServerHello'), ('certificate', 11, 'CertificateList'),
      ('server_key_exchange', 12, 'ObscureData'), ('certificate_request', 13, 'CertificateRequest'), ('server_hello_done', 14, 'DummyItem'),
      ('client_key_exchange', 16, 'ObscureData'), ('finished', 20, 'VerifyData')]

o = []
w = o.append


def members(fits, known, enc, greedy=False, framed='true'):
    w('    open spec fn fits(&self) -> bool { %s }' % fits)
    w('    open spec fn known(&self) -> bool { %s }' % known)
    w('    open spec fn enc(&self) -> Seq<u8> { %s }' % enc)
    w('    open spec fn greedy() -> bool { %s }' % str(greedy).lower())
    w('    open spec fn framed(s: Seq<u8>) -> bool { %s }' % framed)


def enum(n, width, vals):
    w('//@spec')
    w('pub open spec fn %s_num(x: %s) -> int { match x { %s } }' % (n, n, ', '.join('%s::%s => %d' % (n, a, b) for a, b in vals)))
    fp = '<%s as crate :: vshim :: enum_primitive :: FromPrimitive>' % n
    w('//@impl ' + fp)
    w('    open spec fn fp_num(self) -> int { %s_num(self) }' % n)
    w('//@fn %s::from_i64' % fp)
    w('//@fn %s::from_u64' % fp)
    w('//@impl <%s as TlsItem>' % n)
    members('true', 'true', 'len_bytes(%s_num(*self), %d)' % (n, width))
    w('//@fn <%s as TlsItem>::tls_write' % n)
    w('//@fn <%s as TlsItem>::tls_read' % n)
    w('//@hint start')
    w('''    proof {
        let s = old(reader).rem();
        lemma_len(s, %d);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies s.len() >= %d && len_value(s, %d) == crate::vshim::enum_primitive::FromPrimitive::fp_num(v) by {
            assert(starts(s, len_bytes(%s_num(v), %d), false));
        }
    }''' % (width, width, width, n, width))
    w('//@fn <%s as TlsItem>::tls_size' % n)


def deref(n, fn):
    w('//@fn <%s as std :: ops :: Deref>::deref' % n)
    w('    ensures r@ == self.0@,')


def array(n, size):
    w('//@impl <%s as TlsItem>' % n)
    members('self.0@.len() == %d' % size, 'true', 'self.0@')
    w('//@fn %s::new' % n)
    w('    ensures (r is Ok) == (v@.len() == %d), r matches Ok(x) ==> x.0@ == v@, r matches Err(e) ==> e.kind == crate::tls_result::TlsErrorKind::InternalError,' % size)
    w('//@fn <%s as TlsItem>::tls_write' % n)
    w('//@fn <%s as TlsItem>::tls_read' % n)
    w('//@hint ret')
    w('    proof { if __ret is Ok { let x = __ret->Ok_0; assert(x.0@ =~= old(reader).rem().subrange(0, %d)); } }' % size)
    w('//@fn <%s as TlsItem>::tls_size' % n)
    deref(n, None)


def vec(n, item, mn, mx):
    W = width(mx)
    w('//@impl <%s as TlsItem>' % n)
    members('all_fit(self.0@) && %d <= flat(self.0@).len() <= %d' % (mn, mx), 'all_known(self.0@)', 'len_bytes(flat(self.0@).len() as int, %d) + flat(self.0@)' % W)
    w('//@fn %s::new' % n)
    w('    requires all_fit(v@), flat(v@).len() <= u64::MAX')
    w('    ensures (r is Ok) == (%d <= flat(v@).len() <= %d), r matches Ok(x) ==> x.0@ == v@,' % (mn, mx))
    w('        r matches Err(e) ==> e.kind == crate::tls_result::TlsErrorKind::DecodeError,')
    w('//@hint start')
    w('    proof { lemma_shifts(); }')
    w('//@fn %s::unwrap' % n)
    w('    ensures r@ == self.0@,')
    w('//@fn %s::data_size' % n)
    w('    requires all_fit(self.0@), flat(self.0@).len() <= u64::MAX')
    w('    ensures r == flat(self.0@).len(),')
    w('//@loop 0 it')
    w('        invariant all_fit(self.0@), flat(self.0@).len() <= u64::MAX, it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],')
    w('            size == flat(self.0@.take(it.index@)).len(),')
    w('//@hint loop 0 start')
    w('    proof { lemma_flat_take(self.0@, it.index@); }')
    w('//@hint loop 0 after')
    w('    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }')
    w('//@fn <%s as TlsItem>::tls_write' % n)
    w('//@hint start')
    w('    proof { lemma_shifts(); }')
    w('//@loop 0 it')
    w('''        invariant self.fits(), it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            self.known() && !old(writer).wfails() ==> !writer.wfails(),
            self.known() ==> writer.out() == old(writer).out() + len_bytes(flat(self.0@).len() as int, %d) + flat(self.0@.take(it.index@)),''' % W)
    w('//@hint loop 0 before')
    w('''    proof {
        assert(self.0@.take(0) =~= Seq::<%s>::empty());
        assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, %d) + flat(self.0@.take(0)));
    }''' % (item, W))
    w('//@hint loop 0 start')
    w('    let ghost o1 = writer.out();')
    w('    proof { lemma_flat_take(self.0@, it.index@); }')
    w('//@hint loop 0 end')
    w('    proof { if self.known() { assert(writer.out() =~= o1 + self.0@[it.index@].enc()); assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, %d) + flat(self.0@.take(it.index@ + 1))); } }' % W)
    w('//@hint end')
    w('    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }')
    w('//@fn <%s as TlsItem>::tls_read' % n)
    w('//@hint start')
    w('''    let ghost s = old(reader).rem();
    let ghost t = skip(s, %d);
    proof {
        lemma_shifts();
        lemma_len(s, %d);
        assert forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) implies s.len() >= %d && len_value(s, %d) == flat(v.0@).len() && starts(t, flat(v.0@), false) by {
            lemma_cat(s, len_bytes(flat(v.0@).len() as int, %d), flat(v.0@));
            assert(starts(s, len_bytes(flat(v.0@).len() as int, %d), false));
        }
    }''' % (W, W, W, W, W, W))
    w('//@loop 0')
    w('''        invariant
            s.len() >= %d, self_size == len_value(s, %d), t == skip(s, %d),
            items_size == flat(items@).len(), all_fit(items@), items_size <= t.len(), items_size <= 0x200_0000,
            reader.rem() == skip(t, items_size as int),
            reader.pos() + reader.rem().len() == old(reader).pos() + s.len(),
            !old(reader).fails() ==> !reader.fails(),
            all_known(items@) ==> t.subrange(0, items_size as int) == flat(items@),
            forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) ==> len_value(s, %d) == flat(v.0@).len() && starts(t, flat(v.0@), false),
            forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
                ==> items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)),
        decreases (if items_size < self_size { self_size - items_size } else { 0int })''' % (W, W, W, W))
    w('//@hint loop 0 before')
    w('''    proof {
        assert(items@ =~= Seq::<%s>::empty());
        assert(t.subrange(0, 0) =~= flat(items@));
        assert(skip(t, 0) =~= t);
        assert(reader.rem() =~= t);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            assert(v.0@.take(0) =~= Seq::<%s>::empty());
        }
    }''' % (item, item))
    w('//@hint loop 0 start')
    w('''    let ghost items1 = items@;
    let ghost t1 = skip(t, items_size as int);
    proof {
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() < v.0@.len() && starts(t1, v.0@[items@.len() as int].enc(), false) && v.0@[items@.len() as int].known() && v.0@[items@.len() as int].fits() by {
            assert(v.0@.take(v.0@.len() as int) =~= v.0@);
            lemma_flat_next(t, v.0@, items@.len() as int);
        }
    }''')
    w('//@hint loop 0 end')
    w('''    proof {
        let x = items@.last();
        assert(items@ =~= items1.push(x));
        assert(x.enc().len() > 0);
        lemma_flat_push(items1, x);
        assert(flat(items@).len() == flat(items1).len() + x.enc().len());
        lemma_cat(t, flat(items1), x.enc());
        if all_known(items@) {
            assert(starts(t, flat(items1), false) && starts(t1, x.enc(), false));
            assert(t.subrange(0, items_size as int) == flat(items@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            lemma_flat_next(t, v.0@, items1.len() as int);
        }
    }''')
    w('//@hint ret')
    w('''    proof {
        if __ret is Ok { let x = __ret->Ok_0;
            lemma_cat(s, len_bytes(flat(x.0@).len() as int, %d), flat(x.0@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies __ret is Ok && __ret->Ok_0.known() && __ret->Ok_0.enc() == v.enc() by {
            assert(t.subrange(0, items_size as int) == flat(v.0@));
        }
    }''' % W)
    w('//@fn <%s as TlsItem>::tls_size' % n)
    w('//@hint start')
    w('    proof { lemma_shifts(); }')
    deref(n, None)


def rassoc(es):
    return es[0] if len(es) == 1 else '%s + (%s)' % (es[0], rassoc(es[1:]))


def struct(n, fields, greedy):
    w('//@impl <%s as TlsItem>' % n)
    members(' && '.join('self.%s.fits()' % f for f in fields), ' && '.join('self.%s.known()' % f for f in fields), rassoc(['self.%s.enc()' % f for f in fields]), greedy)
    w('//@fn <%s as TlsItem>::tls_write' % n)
    w('//@hint end')
    w('    proof { assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }')
    w('//@fn <%s as TlsItem>::tls_read' % n)
    w('//@hint start')
    g = str(greedy).lower()
    w('    let ghost s = old(reader).rem();')
    w('    proof {')
    cur, conds, calls = 's', [], []
    for i, f in enumerate(fields):
        last = i == len(fields) - 1
        conds.append('starts(%s, v.%s.enc(), %s)' % (cur, f, g if last else 'false'))
        if not last:
            calls.append('lemma_cat(%s, v.%s.enc(), %s);' % (cur, f, rassoc(['v.%s.enc()' % x for x in fields[i + 1:]])))
            nxt = 'skip(%s, v.%s.enc().len() as int)' % (cur, f)
            calls.append('assert(starts(%s, %s, %s));' % (nxt, rassoc(['v.%s.enc()' % x for x in fields[i + 1:]]), g))
            cur = nxt
    w('        assert forall|v: Self| #[trigger] starts(s, v.enc(), %s) implies' % g)
    w('            ' + '\n            && '.join(conds) + ' by {')
    for c in calls:
        w('            ' + c)
    w('        }')
    w('    }')
    w('//@hint ret')
    w('    proof {')
    w('        if __ret is Ok { let v = __ret->Ok_0;')
    w('            let s0 = s;')
    for i, f in enumerate(fields[:-1]):
        w('            let s%d = skip(s%d, v.%s.enc().len() as int);' % (i + 1, i, f))
    for i in range(len(fields) - 2, -1, -1):
        w('            lemma_cat(s%d, v.%s.enc(), %s);' % (i, fields[i], rassoc(['v.%s.enc()' % x for x in fields[i + 1:]])))
    w('        }')
    w('    }')
    w('//@fn <%s as TlsItem>::tls_size' % n)


HEAD = '''//@module %s
//@use crate::vshim::io::{read_step, write_step, Read, Write}
//@use crate::tls_item::*
//@spec
broadcast use crate::tls_result::axiom_question;'''

ORDER = ['signature', 'alert', 'cipher', 'handshake', 'cipher::ecdhe']


def module(m):
    w(HEAD % m)
    for (mm, n), (wd, vals) in ENUMS.items():
        if mm == m:
            enum(n, wd, vals)
    for (mm, n), size in ARRAYS.items():
        if mm == m:
            array(n, size)
    for (mm, n), v in VECS.items():
        if mm == m:
            vec(n, *v)
    for (mm, n), v in STRUCTS.items():
        if mm == m:
            struct(n, *v)
    if m in EXTRA:
        w(EXTRA[m].strip('\n'))


EXTRA = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'gen_items_extra.py')).read())
for m in ORDER:
    module(m)
open(OUT, 'w').write('\n'.join(o) + '\n')
