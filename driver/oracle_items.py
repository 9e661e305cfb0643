"""Concrete oracles C14, C15 (protocol items), C10..C13 (record layer)."""
import struct, random
import ref
from oracle_crypto import H, rb, mixbytes

# ------------------------------------------------------------------ grammar
# written from RFC 5246 / 4492 / 6066; one entry per item type of the library
def enum(w, vals):
    return ('enum', w, frozenset(vals))


def vec(t, lo, hi):
    return ('vec', t, lo, hi)


U8, U16, U32, U64 = ('int', 1), ('int', 2), ('int', 4), ('int', 8)
T = {}
T['u8'], T['u16'], T['u32'], T['u64'] = U8, U16, U32, U64
T['Random'] = ('arr', 32)
T['VerifyData'] = ('arr', 12)
T['CipherSuite'] = ('suite',)
T['CipherSuiteVec'] = vec('CipherSuite', 2, 2**16 - 2)
T['CompressionMethod'] = enum(1, (0, 1))
T['CompressionMethodVec'] = vec('CompressionMethod', 1, 255)
T['ProtocolVersion'] = ('struct', [('major', 'u8'), ('minor', 'u8')])
T['SessionId'] = vec('u8', 0, 32)
T['Asn1Cert'] = vec('u8', 1, 2**24 - 1)
T['NamedCurve'] = enum(2, list(range(1, 26)) + [0xff01, 0xff02])
T['EllipticCurveList'] = vec('NamedCurve', 1, 2**16 - 1)
T['ECPointFormat'] = enum(1, (0, 1, 2))
T['ECPointFormatList'] = vec('ECPointFormat', 1, 255)
T['HashAlgorithm'] = enum(1, range(7))
T['SignatureAlgorithm'] = enum(1, range(4))
T['SignatureAndHashAlgorithm'] = ('struct', [('hash', 'HashAlgorithm'), ('signature', 'SignatureAlgorithm')])
T['SignatureAndHashAlgorithmVec'] = vec('SignatureAndHashAlgorithm', 2, 2**16 - 2)
T['Extension'] = ('ext',)
T['ExtensionVec'] = vec('Extension', 0, 2**16 - 1)
T['OptExtensionVec'] = ('opt', 'ExtensionVec')
T['ClientHello'] = ('struct', [('client_version', 'ProtocolVersion'), ('random', 'Random'), ('session_id', 'SessionId'),
                               ('cipher_suites', 'CipherSuiteVec'), ('compression_methods', 'CompressionMethodVec'), ('extensions', 'OptExtensionVec')])
T['ServerHello'] = ('struct', [('server_version', 'ProtocolVersion'), ('random', 'Random'), ('session_id', 'SessionId'),
                               ('cipher_suite', 'CipherSuite'), ('compression_method', 'CompressionMethod'), ('extensions', 'OptExtensionVec')])
T['CertificateList'] = vec('Asn1Cert', 0, 2**24 - 1)
T['ClientCertificateType'] = enum(1, (1, 2, 3, 4, 5, 6, 20))
T['CertificiateTypeVec'] = vec('ClientCertificateType', 1, 255)
T['DistinguishedName'] = vec('u8', 1, 2**16 - 1)
T['DistinguishedNameVec'] = vec('DistinguishedName', 0, 2**16 - 1)
T['CertificateRequest'] = ('struct', [('certificate_types', 'CertificiateTypeVec'),
                                      ('supported_signature_algorithms', 'SignatureAndHashAlgorithmVec'), ('certificate_authorities', 'DistinguishedNameVec')])
T['Signature'] = vec('u8', 0, 2**16 - 1)
T['DigitallySigned'] = ('struct', [('algorithm', 'SignatureAndHashAlgorithm'), ('signature', 'Signature')])
T['AlertLevel'] = enum(1, (1, 2))
ALERTS = [0, 10, 20, 21, 22, 30, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 60, 70, 71, 80, 90, 100, 110, 111, 112, 113, 114]
T['AlertDescription'] = enum(1, ALERTS)
T['Alert'] = ('struct', [('level', 'AlertLevel'), ('description', 'AlertDescription')])
T['EcData'] = vec('u8', 1, 255)
T['EcCurve'] = ('struct', [('a', 'EcData'), ('b', 'EcData')])
T['EcParameters'] = ('ecparams',)
T['ServerEcdhParams'] = ('struct', [('curve_params', 'EcParameters'), ('public', 'EcData')])
T['EcdheServerKeyExchange'] = ('struct', [('params', 'ServerEcdhParams'), ('signed_params', 'DigitallySigned')])
T['DummyItem'] = ('dummy',)
T['ObscureData'] = ('rest',)
HS = {0: ('hello_request', 'DummyItem'), 1: ('client_hello', 'ClientHello'), 2: ('server_hello', 'ServerHello'), 11: ('certificate', 'CertificateList'),
      12: ('server_key_exchange', 'ObscureData'), 13: ('certificate_request', 'CertificateRequest'), 14: ('server_hello_done', 'DummyItem'),
      16: ('client_key_exchange', 'ObscureData'), 20: ('finished', 'VerifyData')}
T['Handshake'] = ('handshake',)
EXTS = {10: ('ec', 'EllipticCurveList'), 11: ('pf', 'ECPointFormatList'), 13: ('sa', 'SignatureAndHashAlgorithmVec')}


class Bad(Exception):
    pass


def width(hi):
    for w in (1, 2, 3, 4):
        if hi < 1 << (8 * w):
            return w
    return 8


def take(b, p, n):
    if p + n > len(b):
        raise Bad('short')
    return b[p:p + n], p + n


def num(b, p, n):
    d, p = take(b, p, n)
    return int.from_bytes(d, 'big'), p


def parse(t, b, p):
    """-> (position after, dump string, has unknown suite, size)"""
    k = T[t]
    q = p
    if k[0] == 'int' or k[0] == 'arr':
        d, p = take(b, p, k[1])
        return p, H(d), False
    if k[0] == 'enum':
        v, p = num(b, p, k[1])
        if v not in k[2]:
            raise Bad('enum')
        return p, '#%d' % v, False
    if k[0] == 'suite':
        d, p = take(b, p, 2)
        if d == b'\xcc\xa8':
            return p, 'cca8', False
        return p, '!UnexpectedMessage', True
    if k[0] == 'struct':
        o, u = [], False
        for n, ft in k[1]:
            p, d, uu = parse(ft, b, p)
            u |= uu
            o.append('%s=%s' % (n, d))
        return p, '(%s)' % ';'.join(o), u
    if k[0] == 'vec':
        n, p = num(b, p, width(k[3]))
        if not k[2] <= n <= k[3]:
            raise Bad('bounds')
        end = p + n
        u = False
        if T[k[1]] == U8:
            d, p = take(b, p, n)
            return p, H(b[q:p]), False
        while p < end:
            p, d, uu = parse(k[1], b, p)
            u |= uu
        if p != end:
            raise Bad('size')
        return p, ('!UnexpectedMessage' if u else H(b[q:p])), u
    if k[0] == 'opt':
        if p == len(b):
            return p, 'none', False
        p, d, u = parse(k[1], b, p)
        if p != len(b):
            raise Bad('trailing')
        return p, 'some(%s)' % d, u
    if k[0] == 'ext':
        ty, p = num(b, p, 2)
        n, p = num(b, p, 2)
        if ty in EXTS:
            s = p
            p, d, u = parse(EXTS[ty][1], b, p)
            if p - s != n:
                raise Bad('ext size')
            return p, '%s(%s)' % (EXTS[ty][0], d), u
        d, p = take(b, p, n)
        return p, 'unk(%d;%s)' % (ty, H(d)), False
    if k[0] == 'ecparams':
        v, p = num(b, p, 1)
        if v != 3:
            raise Bad('params')
        p, d, u = parse('NamedCurve', b, p)
        return p, 'nc(%s)' % d, u
    if k[0] == 'dummy':
        return p, '.', False
    if k[0] == 'rest':
        return len(b), H(b[p:]), False
    if k[0] == 'handshake':
        ty, p = num(b, p, 1)
        n, p = num(b, p, 3)
        if ty not in HS:
            raise Bad('type')
        name, bt = HS[ty]
        s = p
        p, d, u = parse(bt, b, p)
        if p != len(b):
            raise Bad('trailing')
        return p, (name + (d if d.startswith('(') else '' if bt == 'DummyItem' else '(%s)' % d)), u
    raise AssertionError(t)


def gen(t, r, big=False):
    """a random valid encoding"""
    k = T[t]
    if k[0] in ('int', 'arr'):
        return mixbytes(r, k[1])
    if k[0] == 'enum':
        return r.choice(sorted(k[2])).to_bytes(k[1], 'big')
    if k[0] == 'suite':
        return b'\xcc\xa8' if r.random() < .8 else rb(r, 2)
    if k[0] == 'struct':
        return b''.join(gen(ft, r, big) for n, ft in k[1])
    if k[0] == 'vec':
        lo, hi = k[2], k[3]
        if T[k[1]] == U8:
            n = r.choice((lo, min(hi, lo + 1), min(hi, r.randrange(lo, lo + 40)), min(hi, 300) if big else lo, min(hi, 70000) if big and r.random() < .3 else lo, hi if hi < 66000 and big else lo))
            d = rb(r, n)
        else:
            d = b''
            cnt = r.choice((0, 1, 1, 2, 3, 9 if big else 1))
            for _ in range(cnt):
                d += gen(k[1], r, False)
            while len(d) < lo:
                d += gen(k[1], r, False)
            while len(d) > hi:
                d = b''
        return len(d).to_bytes(width(hi), 'big') + d
    if k[0] == 'opt':
        return b'' if r.random() < .3 else gen(k[1], r, big)
    if k[0] == 'ext':
        if r.random() < .7:
            ty = r.choice(sorted(EXTS))
            d = gen(EXTS[ty][1], r, big)
        else:
            ty = r.choice([0, 1, 9, 12, 14, 35, 0xff01, 65535])
            d = rb(r, r.choice((0, 1, 5, 300 if big else 2)))
        return struct.pack('>HH', ty, len(d)) + d
    if k[0] == 'ecparams':
        return b'\x03' + gen('NamedCurve', r)
    if k[0] == 'dummy':
        return b''
    if k[0] == 'rest':
        return rb(r, r.choice((0, 1, 20, 300 if big else 3)))
    if k[0] == 'handshake':
        ty = r.choice(sorted(HS))
        d = gen(HS[ty][1], r, big)
        return bytes([ty]) + len(d).to_bytes(3, 'big') + d
    raise AssertionError(t)


def expect_item(t, b):
    try:
        p, d, u = parse(t, b, 0)
    except Bad as e:
        return None
    return p, d, u


def item_case(t, b, r=None, chunked=False):
    e = expect_item(t, b)
    if chunked and b:
        parts, q = [], 0
        while q < len(b):
            n = r.choice((1, 2, 3, len(b)))
            if r.random() < .2:
                parts.append('I')
            parts.append(b[q:q + n].hex())
            q += n
        parts.append('I')
        src = ','.join(parts)
    else:
        src = H(b)
    line = 'item %s %s' % (t, src)

    def chk(a):
        f = a.split(' ', 4)
        if e is None:
            return None if f[0] == 'err' else 'accepted bytes that are not an encoding: ' + a[:120]
        p, d, u = e
        if f[0] != 'ok':
            return 'rejected a valid encoding (%s)' % a[:80]
        if int(f[1]) != p:
            return 'consumed %s bytes instead of %d' % (f[1], p)
        if not u:
            if f[2] != H(b[:p]):
                return 're-encoding differs from the bytes consumed'
        elif f[2][0] != '!':
            return 'an unknown cipher suite was encoded'
        if int(f[3]) != p:
            return 'announced size %s, encoding has %d bytes' % (f[3], p)
        if f[4] != d:
            return 'fields differ: %s instead of %s' % (f[4][:150], d[:150])
        return None
    return line, chk


def mutate(t, b, r):
    k = r.randrange(7)
    m = bytearray(b)
    if k == 0 and m:
        m[r.randrange(len(m))] = r.choice((0, 1, 2, 3, 4, 7, 20, 0xff, r.getrandbits(8)))
    elif k == 1 and m:
        del m[r.randrange(len(m)):]
    elif k == 2:
        m += rb(r, r.choice((1, 2, 5)))
    elif k == 3 and m:
        i = r.randrange(len(m))
        m[i] = (m[i] + r.choice((1, -1))) % 256
    elif k == 4 and m:
        i = r.randrange(len(m))
        m.insert(i, r.getrandbits(8))
    elif k == 5 and m:
        del m[r.randrange(len(m))]
    else:
        for _ in range(2):
            if m:
                m[r.randrange(len(m))] = r.choice((0, 1, 2, 3, 255, r.getrandbits(8)))
    return bytes(m)


def fixlen(t, b):
    # handshake: keep the announced length right (the reassembly buffer
    # guarantees it)
    if t == 'Handshake' and len(b) >= 4:
        return b[:1] + (len(b) - 4).to_bytes(3, 'big') + b[4:]
    return b


def c15(r, deep):
    for t in sorted(T):
        k = T[t]
        if k[0] == 'enum':
            for v in range(256) if k[1] == 1 else list(range(0, 70)) + list(range(0xfefe, 0xff08)) + [0x0100, 0x1700, 0x0117, 0xffff]:
                yield item_case(t, v.to_bytes(k[1], 'big'))
        if t == 'CipherSuite':
            for v in (0xcca8, 0xcca9, 0xcc13, 0xcda8, 0, 0xffff, 0xa8cc):
                yield item_case(t, v.to_bytes(2, 'big'))
        if k[0] == 'vec' and k[3] < 2**16:
            for n in (k[2] - 1, k[2], k[2] + 1, k[3] - 1, k[3], k[3] + 1):
                w = width(k[3])
                if 0 <= n < 1 << (8 * w):
                    body = bytes(n)
                    yield item_case(t, n.to_bytes(w, 'big') + body)
                    g = gen(k[1], r) if T[k[1]] != U8 else b'\x01'
                    body = (g * (n // max(1, len(g)) + 1))[:n]
                    yield item_case(t, n.to_bytes(w, 'big') + body)
        for i in range((40 if not deep else 500) * (4 if t in ('Handshake', 'ClientHello', 'ServerHello', 'ExtensionVec', 'Extension', 'OptExtensionVec') else 1)):
            b = gen(t, r, big=(i % 9 == 0))
            yield item_case(t, fixlen(t, b), r, chunked=(i % 3 == 1))
            for _ in range(3):
                yield item_case(t, fixlen(t, mutate(t, b, r)), r)
    for ty in range(256):
        yield item_case('Handshake', bytes([ty, 0, 0, 0]))
        yield item_case('Extension', struct.pack('>HH', ty, 0))
    for n in (65535, 65536, 2**24 - 1) if deep else (65536,):
        d = bytes(n)
        yield item_case('Asn1Cert', n.to_bytes(3, 'big') + d)


def c14(r, deep):
    # constructors accept exactly the declared sizes
    for t, k in sorted(T.items()):
        if k[0] == 'arr':
            for n in list(range(0, 40)) + [k[1] + 256]:
                def chk(a, n=n, w=k[1]):
                    e = 'ok %d %s' % (w, H(bytes(i & 255 for i in range(w))))
                    if n == w:
                        return None if a == e else 'constructor refused the declared size or encoded it wrongly'
                    return None if a.startswith('err ') else 'constructor accepted %d bytes' % n
                yield 'ctor %s %d' % (t, n), chk
        if k[0] == 'vec' and not t == 'OptExtensionVec':
            es = {'u8': 1, 'CipherSuite': 2, 'CompressionMethod': 1, 'NamedCurve': 2, 'ECPointFormat': 1, 'Extension': 4, 'Asn1Cert': 1003,
                  'ClientCertificateType': 1, 'DistinguishedName': 100, 'SignatureAndHashAlgorithm': 2}[k[1]]
            lo, hi = k[2], k[3]
            ns = {0, 1, 2, 3, lo // es, max(0, lo // es - 1), lo // es + 1, 255 // es, 256 // es + 1, 16383 // es + 1, 65535 // es, 65536 // es, 65536 // es + 1, 32 // es + 1, 33}
            if hi > 2**16 and k[1] == 'u8':
                ns |= {2**24 - 1, 2**24}
            if hi > 2**16 and k[1] != 'u8':
                ns |= {hi // es, hi // es + 1}
            for n in sorted(ns):
                sz = n * es
                w = width(hi)

                def chk(a, sz=sz, w=w, lo=lo, hi=hi):
                    if not lo <= sz <= hi:
                        return None if a.startswith('err ') else 'constructor accepted a size outside the bounds: %d' % sz
                    f = a.split(' ')
                    if f[0] != 'ok':
                        return 'constructor refused a size inside the bounds: %d' % sz
                    if int(f[1]) != sz + w:
                        return 'announced size %s, %d expected' % (f[1], sz + w)
                    if f[2][0] == 'L':
                        return None if f[2] == 'L%d' % (sz + w) else 'wrote %s bytes' % f[2]
                    b = bytes.fromhex(f[2])
                    return None if len(b) == sz + w and int.from_bytes(b[:w], 'big') == sz else 'wrong length prefix'
                yield 'ctor %s %d' % (t, n), chk
    for t in sorted(T):
        for i in range(25 if not deep else 300):
            yield item_case(t, fixlen(t, gen(t, r, big=(i % 3 == 0))), r)
    for n in (252, 253, 254, 255, 256, 257, 511, 512, 65535, 65536, 65537, 70000):
        d = rb(r, n)
        for ty in (12, 16):
            yield item_case('Handshake', bytes([ty]) + n.to_bytes(3, 'big') + d)
        if n < 65500:
            yield item_case('Extension', struct.pack('>HH', 0, n) + d)
            yield item_case('Signature', struct.pack('>H', n) + d)
            yield item_case('DistinguishedName', struct.pack('>H', n) + d)
        yield item_case('Asn1Cert', n.to_bytes(3, 'big') + d)
        e = n.to_bytes(3, 'big') + d
        e = len(e).to_bytes(3, 'big') + e
        yield item_case('CertificateList', e)
        yield item_case('Handshake', b'\x0b' + len(e).to_bytes(3, 'big') + e)
    for kind, d in ALERT_OF.items():
        yield 'alertof ' + kind, '(level=#2;description=#%d)' % d


ALERT_OF = {'UnexpectedMessage': 10, 'BadRecordMac': 20, 'RecordOverflow': 22, 'IllegalParameter': 47, 'DecodeError': 50, 'DecryptError': 51,
            'InternalError': 80, 'AlertReceived': 0}


# ------------------------------------------------------------------ records
def rec(ty, body, ver=(3, 3)):
    return bytes([ty, ver[0], ver[1]]) + struct.pack('>H', len(body)) + body


def split_records(b):
    out, p = [], 0
    while p < len(b):
        if p + 5 > len(b):
            return out, b[p:]
        n = struct.unpack('>H', b[p + 3:p + 5])[0]
        if p + 5 + n > len(b):
            return out, b[p:]
        out.append((b[p], (b[p + 1], b[p + 2]), b[p + 5:p + 5 + n]))
        p += 5 + n
    return out, b''


def nonce(iv, k):
    n = bytes(4) + struct.pack('>Q', k)
    return bytes(a ^ b for a, b in zip(n, iv)) if iv else n


def aad(k, ty, ver, n):
    return struct.pack('>Q', k) + bytes([ty, ver[0], ver[1]]) + struct.pack('>H', n)


def writer_run(r, deep, fail=False):
    """one random session of the record writer -> (line, checker)"""
    ops, model = [], []
    enc = None
    iv = b''
    sizes = [0, 1, 2, 100, 16383, 16384, 16385, 16384 * 2, 16384 * 2 + 1, 40000]
    plan = []
    mode = r.choice(('plain', 'm', 'K', 'switch', 'switch'))
    nops = r.randrange(2, 8)
    sw = r.randrange(nops)
    if r.random() < .4:
        ops.append('s%d' % r.choice((1, 3, 1000)))
    bigs = 0
    for i in range(nops):
        if (mode in ('m', 'K') and i == 0) or (mode == 'switch' and i == sw):
            key = rb(r, 32)
            if mode == 'K' or r.random() < .4:
                ops.append('K' + key.hex())
                enc = ('K', key)
            else:
                g = r.choice((0, 16, 2048))
                ops.append('m%d' % g)
                enc = ('m', g)
            plan.append(('on', enc))
            if r.random() < .8:
                iv = rb(r, 12)
                ops.append('i' + iv.hex())
                plan.append(('iv', iv))
        if fail and r.random() < .4:
            ops.append('f%d' % r.choice((0, 1, 4, 5, 6, 30, 16389, 16388)))
            plan.append(('f',))
        if r.random() < .15:
            ops.append('n')
        ty = r.choice((20, 21, 22, 23))
        n = r.choice(sizes) if bigs < 2 else r.choice(sizes[:4])
        bigs += n > 1000
        d = rb(r, n)
        if enc and r.random() < .2:
            ops.append('a' + H(d))
            ty = 23
        elif r.random() < .1:
            d, ty = b'\x01', 20
            ops.append('C')
        else:
            ops.append('d%d%s' % (ty, H(d)))
        plan.append(('d', ty, d))
        if fail and r.random() < .5:
            ops.append('u')
            plan.append(('u',))
    line = 'writer ' + ','.join(ops)

    def chk(a):
        try:
            res, out, log = a.split(' | ')
        except ValueError:
            try:
                res, out = a.split(' |')[:2]
                out = out.strip().split(' ')[0]
                log = ''
            except Exception:
                return 'unexpected answer ' + a[:100]
        res = res.split(' ')
        log = [tuple(bytes.fromhex('' if x == '.' else x) for x in l.split(':')) for l in log.split(' ') if l]
        recs, rest = split_records(bytes.fromhex('' if out.strip() == '.' else out.strip()))
        failing = any(p[0] == 'f' for p in plan)
        if rest and not failing:
            return 'output does not end on a record boundary'
        if not failing:
            if any(x != 'ok' for x in res):
                return 'a write failed: ' + ' '.join(res)
            ri = li = 0
            on, civ, k = None, b'', 0
            for p in plan:
                if p[0] == 'on':
                    on, k = p[1], 0
                elif p[0] == 'iv':
                    civ = p[1]
                elif p[0] == 'd':
                    ty, d = p[1], p[2]
                    got = b''
                    nfr = 0
                    while len(got) < len(d):
                        if ri >= len(recs):
                            return 'bytes lost: %d of %d sent' % (len(got), len(d))
                        t, v, body = recs[ri]
                        ri += 1
                        nfr += 1
                        if t != ty or v != (3, 3):
                            return 'record header %d %s' % (t, v)
                        if on is None:
                            fr = body
                        else:
                            if li >= len(log):
                                return 'record not encrypted'
                            nn, ad, fr = log[li]
                            li += 1
                            if nn != nonce(civ, k):
                                return 'nonce of record %d is %s' % (k, nn.hex())
                            if ad != aad(k, ty, (3, 3), len(fr)):
                                return 'associated data of record %d is %s' % (k, ad.hex())
                            k += 1
                            want = ref.seal(on[1], nn, ad, fr) if on[0] == 'K' else bytes(x ^ 0xa5 for x in fr) + b'\xee' * on[1]
                            if body != want:
                                return 'record body is not the encryption of the fragment'
                        if not 1 <= len(fr) <= 16384:
                            return 'fragment of %d bytes' % len(fr)
                        got += fr
                    if got != d:
                        return 'fragments do not concatenate to the data'
            if ri != len(recs) or li != len(log):
                return 'extra records'
            return None
        # with transport failures: nonces under one key never repeat, and a
        # record that was sent after the failure is still well-formed
        seen = set()
        for (nn, ad, pl) in log:
            if nn in seen:
                return 'nonce %s used for two encryptions' % nn.hex()
            seen.add(nn)
        ks = [struct.unpack('>Q', ad[:8])[0] for nn, ad, pl in log]
        if any(b <= x for x, b in zip(ks, ks[1:])):
            return 'sequence numbers do not increase: %s' % ks[:8]
        return None
    return line, chk


def c10(r, deep):
    for _ in range(60 if not deep else 700):
        yield writer_run(r, deep)
    for n in (1, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537):
        d = rb(r, n)
        for pre in ('', 'm16,'):
            def chk(a, d=d, pre=pre):
                res, out, log = (a + ' ').split(' | ')
                recs, rest = split_records(bytes.fromhex(out))
                if rest or res != 'ok':
                    return 'write failed'
                frs = [b for t, v, b in recs] if not pre else [bytes(x ^ 0xa5 for x in b[:-16]) for t, v, b in recs]
                if any(not 1 <= len(x) <= 16384 for x in frs) or any(t != 23 or v != (3, 3) for t, v, b in recs):
                    return 'bad record'
                return None if b''.join(frs) == d else 'data lost or reordered'
            yield 'writer %sd23%s' % (pre, d.hex()), chk


def long_writer(r, n):
    iv = rb(r, 12)
    line = 'writer m0,i%s,%s' % (iv.hex(), ','.join('d23%02x' % (i & 255) for i in range(n)))

    def chk(a):
        res, out, log = a.split(' | ')
        l = log.split(' ')
        for k in range(n):
            x = l[k].split(':') if k < len(l) else ('?', '?')
            if x[0] != nonce(iv, k).hex() or x[1] != aad(k, 23, (3, 3), 1).hex():
                return 'record %d: nonce %s associated data %s' % (k, x[0], x[1])
        return None
    return line, chk


def long_reader(r, n):
    iv = rb(r, 12)
    s = b''.join(rec(23, bytes([k & 255])) for k in range(n))
    line = 'reader %s M0:0,i%s,m%d' % (s.hex(), iv.hex(), n)

    def chk(a):
        res, total, log = a.split(' | ')
        l = log.split()
        for k in range(n):
            x = l[k].split(':') if k < len(l) else ('?', '?')
            if x[0] != nonce(iv, k).hex() or x[1] != aad(k, 23, (3, 3), 1).hex():
                return 'record %d opened with nonce %s and associated data %s' % (k, x[0], x[1])
        return None if res == ' '.join('D:%02x' % (k & 255) for k in range(n)) else 'wrong messages'
    return line, chk


def c11(r, deep):
    for _ in range(50 if not deep else 500):
        yield writer_run(r, deep)
    for _ in range(200 if not deep else 2000):
        yield writer_run(r, deep, fail=True)
    # many records: the counter crosses byte boundaries
    for n in (300, 700):
        iv = rb(r, 12)
        line = 'writer m0,i%s,%s' % (iv.hex(), ','.join('d23%02x' % (i & 255) for i in range(n)))

        def chk(a, n=n, iv=iv):
            res, out, log = a.split(' | ')
            l = [x.split(':') for x in log.split(' ')]
            for k in range(n):
                if l[k][0] != nonce(iv, k).hex() or l[k][1] != aad(k, 23, (3, 3), 1).hex():
                    return 'record %d: nonce %s associated data %s' % (k, l[k][0], l[k][1])
            return None
        yield line, chk
    # and the 16 bit boundary
    yield long_writer(r, 65536 + 40)
    # fail at every byte of the record
    for cut in range(0, 40):
        iv = rb(r, 12)
        line = 'writer m16,i%s,d23aa,f%d,d23bbbb,u,d23cc,d22dddd' % (iv.hex(), cut)

        def chk(a):
            res, out, log = a.split(' | ')
            ns = [x.split(':')[0] for x in log.split(' ')]
            return None if len(set(ns)) == len(ns) else 'nonce used for two encryptions'
        yield line, chk


def srcs(r, b, chunk=True):
    if not chunk or not b:
        return H(b) if b else '-'
    parts, q = [], 0
    while q < len(b):
        n = r.choice((1, 2, 5, 100, len(b)))
        if r.random() < .1:
            parts.append('I')
        parts.append(b[q:q + n].hex())
        q += n
    return ','.join(parts)


HSGOOD = [b'\x0e\0\0\0', b'\0\0\0\0', b'\x14\0\0\x0c' + bytes(range(12)), b'\x0b\0\0\x0a\0\0\x07\0\0\x04abcd', b'\x0c\0\0\x03xyz', b'\x10\0\0\0']


def model_reader(stream, dec=None, iv=b'', nmax=50):
    """reference reader -> (answers, bytes consumed); dec: None | ('K', key) | ('M', mac, grow)"""
    out = []
    pos = 0
    buf = b''
    k = 0

    def next_hs():
        nonlocal buf
        if len(buf) < 4:
            return None
        n = int.from_bytes(buf[1:4], 'big') + 4
        if len(buf) < n:
            return None
        m, buf = buf[:n], buf[n:]
        e = expect_item('Handshake', m)
        return 'E' if e is None else ('H:!UnexpectedMessage' if e[2] else 'H:' + m.hex())
    while len(out) < nmax:
        h = next_hs()
        if h:
            out.append(h)
            if h == 'E':
                return out, pos
            continue
        # read records
        while True:
            if pos >= len(stream):
                out.append('E:IoFailure')
                return out, pos
            ty = stream[pos]
            if ty not in (20, 21, 22, 23):
                out.append('E:UnexpectedMessage')
                return out, pos + 1
            if pos + 5 > len(stream):
                out.append('E:IoFailure')
                return out, len(stream)
            ver = (stream[pos + 1], stream[pos + 2])
            n = struct.unpack('>H', stream[pos + 3:pos + 5])[0]
            if n > 16384 + 2048:
                out.append('E:RecordOverflow')
                return out, pos + 5
            if pos + 5 + n > len(stream):
                out.append('E:IoFailure')
                return out, len(stream)
            body = stream[pos + 5:pos + 5 + n]
            pos += 5 + n
            if dec:
                mac = 16 if dec[0] == 'K' else dec[1]
                if n < mac:
                    out.append('E:BadRecordMac')
                    return out, pos
                if dec[0] == 'K':
                    body = ref.open_(dec[1], nonce(iv, k), aad(k, ty, ver, n - mac), body)
                    if body is None:
                        out.append('E:BadRecordMac')
                        return out, pos
                else:
                    body = body[:n - mac] + b'\xee' * dec[2]
                k += 1
            if len(body) > 16384:
                out.append('E:RecordOverflow')
                return out, pos
            if ty == 20:
                if body != b'\x01' or buf:
                    out.append('E:UnexpectedMessage')
                    return out, pos
                out.append('C')
                break
            if ty == 21:
                if len(body) < 2 or body[0] not in (1, 2) or body[1] not in ALERTS:
                    out.append('E:UnexpectedMessage')
                    return out, pos
                out.append('A:%d:%d' % (body[0], body[1]))
                break
            if ty == 23:
                out.append('D:' + H(body))
                break
            if not body:
                out.append('E:UnexpectedMessage')
                return out, pos
            buf += body
            h = next_hs()
            if h:
                out.append(h)
                if h == 'E':
                    return out, pos
                break
    return out, pos


def reader_case(r, stream, dec=None, iv=b'', chunk=True, pre=''):
    exp, pos = model_reader(stream, dec, iv)
    ops = []
    if dec:
        ops.append('K' + dec[1].hex() if dec[0] == 'K' else 'M%d:%d' % (dec[1], dec[2]))
        if iv:
            ops.append('i' + iv.hex())
    ops.append('m%d' % 50)
    line = 'reader %s %s' % (srcs(r, stream, chunk), ','.join(ops))

    def chk(a):
        try:
            res, total, log = (a + ' ').split(' | ')
        except ValueError:
            return 'unexpected answer: ' + a[:150]
        got = res.split(' ')
        if len(got) != len(exp):
            return 'messages %s instead of %s' % ([x[:40] for x in got][:8], [x[:40] for x in exp][:8])
        for i, (x, y) in enumerate(zip(got, exp)):
            if y == 'E':
                if not x.startswith('E:'):
                    return 'message %d: %s instead of a decode error' % (i, x[:60])
            elif x != y:
                return 'message %d: %s instead of %s' % (i, x[:60], y[:60])
        if int(total) != pos and exp[-1] == 'E:IoFailure':
            return 'consumed %s bytes of the stream instead of %d' % (total, pos)
        if dec and dec[0] == 'M':
            l = [x.split(':') for x in log.split()]
            for k, (nn, ad, e) in enumerate(l):
                eb = b'' if e == '.' else bytes.fromhex(e)
                if nn != nonce(iv, k).hex() or not ad.startswith(struct.pack('>Q', k).hex()) or ad[-4:] != '%04x' % (len(eb) - dec[1]):
                    return 'record %d opened with nonce %s and associated data %s' % (k, nn, ad)
        return None
    return line, chk


def random_hs_stream(r):
    msgs = [r.choice(HSGOOD) if r.random() < .7 else fixlen('Handshake', gen('Handshake', r)) for _ in range(r.randrange(1, 6))]
    if r.random() < .25:
        msgs.append(fixlen('Handshake', mutate('Handshake', r.choice(HSGOOD), r)))
    return msgs


def frag(r, b):
    out, p = [], 0
    mode = r.choice((1, 2, 3, 5, 50, 10000))
    while p < len(b):
        n = r.randrange(1, mode + 1)
        out.append(b[p:p + n])
        p += n
    return out


def c13(r, deep):
    for _ in range(300 if not deep else 4000):
        msgs = random_hs_stream(r)
        recs = [(22, f) for f in frag(r, b''.join(msgs))]
        # other records between
        for _ in range(r.choice((0, 0, 1, 2))):
            o = r.choice([(20, b'\x01'), (20, b'\x02'), (20, b''), (20, b'\x01\x01'), (21, b'\x02\x28'), (21, b'\x01'), (21, b''), (21, b'\x03\x28'), (21, b'\x02\x01'),
                          (23, rb(r, 5)), (23, b''), (22, b''), (21, b'\x01\0'), (21, b'\x02\x0a\x00')])
            recs.insert(r.choice((len(recs), r.randrange(len(recs) + 1))), o)
        s = b''.join(rec(t, b) for t, b in recs)
        yield reader_case(r, s, chunk=r.random() < .4)
    for l in range(256):
        yield reader_case(r, rec(21, bytes([2, l])) + rec(23, b'x'), chunk=False)
    # every two-way split of a two-message stream
    two = HSGOOD[2] + HSGOOD[3]
    for i in range(1, len(two)):
        yield reader_case(r, rec(22, two[:i]) + rec(22, two[i:]) + rec(20, b'\x01'), chunk=False)
        yield reader_case(r, rec(22, two[:i]) + rec(20, b'\x01') + rec(22, two[i:]), chunk=False)
    big = b'\x0c' + (40000).to_bytes(3, 'big') + rb(r, 40000)
    yield reader_case(r, b''.join(rec(22, big[i:i + 16384]) for i in range(0, len(big), 16384)) + rec(22, HSGOOD[0]), chunk=False)
    big = b'\x0c' + (70000).to_bytes(3, 'big') + rb(r, 70000)
    yield reader_case(r, b''.join(rec(22, big[i:i + 16384]) for i in range(0, len(big), 16384)) + rec(22, HSGOOD[0]), chunk=False)
    for _ in range(100):
        msgs = random_hs_stream(r)
        b = b''.join(msgs)
        fr = frag(r, b)
        exp, buf, e = [], b'', False
        for f in fr:
            buf += f
            while True:
                if len(buf) < 4 or len(buf) < 4 + int.from_bytes(buf[1:4], 'big'):
                    exp.append('+' if buf else '-')
                    break
                n = 4 + int.from_bytes(buf[1:4], 'big')
                m, buf = buf[:n], buf[n:]
                x = expect_item('Handshake', m)
                exp.append('E' if x is None else ('H:!UnexpectedMessage' if x[2] else 'H:' + m.hex()))

        def chk(a, exp=exp):
            g = ['E' if x.startswith('E') else x for x in a.split(' ')]
            return None if g == exp else 'buffer returned %s instead of %s' % ([x[:30] for x in g][:8], [x[:30] for x in exp][:8])
        yield 'hsbuf ' + ','.join(f.hex() for f in fr), chk


def c12(r, deep):
    # limits
    for n in (0, 1, 16383, 16384, 16385, 18431, 18432, 18433, 65535):
        yield reader_case(r, rec(23, bytes(n)) + rec(23, b'zz'), chunk=False)
        for dec in (('M', 0, 0), ('M', 16, 0), ('M', 16, 10), ('M', 0, 1), ('M', 2048, 0)):
            yield reader_case(r, rec(23, bytes(n)) + rec(23, b'zz' * 1024), dec, rb(r, 12), chunk=False)
    for ty in range(256):
        yield reader_case(r, rec(ty, b'\x01') + rec(23, b'a'), chunk=False)
    good = rec(23, b'hello')
    for n in range(len(good) + 1):
        yield reader_case(r, good[:n], chunk=False)
    for _ in range(150 if not deep else 1500):
        key, iv = rb(r, 32), rb(r, 12) if r.random() < .9 else b''
        s, k = b'', 0
        bad = r.random() < .5
        n = r.randrange(1, 6)
        for i in range(n):
            ty = r.choice((23, 23, 22, 21, 20))
            ver = (3, 3) if r.random() < .8 else (r.choice((3, 2)), r.choice((1, 3, 0)))
            p = {23: lambda: rb(r, r.choice((0, 1, 50, 16384 if r.random() < .1 else 7))), 22: lambda: r.choice(HSGOOD), 21: lambda: b'\x01\0', 20: lambda: b'\x01'}[ty]()
            kk, tt, vv, ln, nn = k, ty, ver, len(p), None
            w = r.choice(('seq', 'type', 'ver', 'len', 'iv', 'bit', 'trunc', 'dup', 'swap', 'short')) if bad and i == n - 1 else ''
            if w == 'seq':
                kk = r.choice((k + 1, k + 2, 256 + k, max(0, k - 1)))
            if w == 'type':
                tt = 43 - ty
            if w == 'ver':
                vv = (3, 1)
            if w == 'len':
                ln += 1
            body = ref.seal(key, nonce(iv, kk if w != 'iv' else k + 1), aad(kk, tt, vv, ln), p)
            if w == 'bit':
                b = bytearray(body)
                b[r.randrange(len(b))] ^= 1 << r.randrange(8)
                body = bytes(b)
            if w == 'trunc':
                body = body[:-1]
            if w == 'short':
                body = body[:r.randrange(16)]
            s += rec(ty, body, ver)
            if w == 'dup':
                s += rec(ty, body, ver)
            k += 1
        yield reader_case(r, s, ('K', key), iv, chunk=r.random() < .3)
    # long sessions: counter beyond one byte
    key, iv = rb(r, 32), rb(r, 12)
    s = b''.join(rec(23, ref.seal(key, nonce(iv, k), aad(k, 23, (3, 3), 1), bytes([k & 255]))) for k in range(40))
    yield reader_case(r, s, ('K', key), iv, chunk=False)
    exp = ['D:%02x' % (k & 255) for k in range(300)]
    s = b''.join(rec(23, bytes([k & 255])) for k in range(300))
    line = 'reader %s M0:0,i%s,m300' % (s.hex(), iv.hex())

    def chk(a):
        res, total, log = a.split(' | ')
        l = [x.split(':') for x in log.split()]
        for k in range(300):
            if l[k][0] != nonce(iv, k).hex() or l[k][1] != aad(k, 23, (3, 3), 1).hex():
                return 'record %d opened with nonce %s and associated data %s' % (k, l[k][0], l[k][1])
        return None if res.split(' ') == exp else 'wrong messages'
    yield line, chk
    yield long_reader(r, 65536 + 40)
    for _ in range(200 if not deep else 3000):
        b = bytearray(b''.join(rec(r.choice((20, 21, 22, 23)), rb(r, r.choice((0, 1, 2, 5)))) for _ in range(3)))
        for _ in range(r.randrange(3)):
            b[r.randrange(len(b))] = r.getrandbits(8)
        yield reader_case(r, bytes(b), chunk=r.random() < .3)
