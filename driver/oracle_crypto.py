"""Concrete oracles C01..C09, C20: inputs for the real code (through the
probe) with the answer of an independent reference."""
import random, struct
import ref
from ref import P, N, B, G


def H(b):
    return b.hex() if b else '.'


def fx(x):
    return '%064x' % x


def rb(r, n):
    return bytes(r.getrandbits(8) for _ in range(n))


def mixbytes(r, n):
    k = r.randrange(5)
    if k == 0:
        return bytes(n)
    if k == 1:
        return b'\xff' * n
    if k == 2:
        return bytes(r.choice((0, 1, 0x7f, 0x80, 0xff)) for _ in range(n))
    return rb(r, n)


def c01(r, deep):
    for n in list(range(0, 600)) + [1000, 1023, 1024, 2047, 2048, 2**13 - 9, 2**13, 2**13 + 1, 4096, 65535, 65536 + 55, 70000]:
        m = mixbytes(r, n)
        yield 'sha256 ' + H(m), H(ref.sha256(m))
    for _ in range(300 if not deep else 3000):
        m = rb(r, r.randrange(0, 1500))
        yield 'sha256 ' + H(m), H(ref.sha256(m))
    if deep:
        import hashlib
        for n in (8191, 8192, 65536 * 8, 2**24 + 3, 2**29 - 9, 2**29 + 70):
            h = hashlib.sha256()
            left = n
            blk = b'\x61' * (1 << 20)
            while left:
                k = min(left, 1 << 20)
                h.update(blk[:k])
                left -= k
            yield 'sha256rep 61 %d' % n, h.hexdigest()


def c02(r, deep):
    for n in list(range(0, 140)) + [200, 255, 256, 257, 1000]:
        k, m = mixbytes(r, n), rb(r, r.randrange(0, 200))
        yield 'hmac %s %s' % (H(k), H(m)), H(ref.hmac(k, m))
    for n in range(0, 140):
        k, m = rb(r, r.randrange(1, 100)), rb(r, n)
        yield 'hmac %s %s' % (H(k), H(m)), H(ref.hmac(k, m))
    for i in range(200 if not deep else 2000):
        sec, seed = rb(r, r.randrange(0, 80)), rb(r, r.randrange(0, 80))
        sizes = [r.choice((0, 1, 2, 5, 12, 16, 30, 31, 32, 33, 48, 63, 64, 65, 96, 100, 128, r.randrange(300))) for _ in range(r.randrange(1, 9))]
        tot = ref.prf(sec, seed, sum(sizes))
        o, p = [], 0
        for s in sizes:
            o.append(H(tot[p:p + s]))
            p += s
        yield 'prf %s %s %s' % (H(sec), H(seed), ','.join(map(str, sizes))), ' '.join(o)


def c03(r, deep):
    for i in range(150 if not deep else 1500):
        key, nonce = mixbytes(r, 32), mixbytes(r, 12)
        ops, exp, ctr = [], [], 0
        for _ in range(r.randrange(1, 6)):
            if r.random() < .3:
                ops.append('n')
                exp.append(H(ref.chacha_block(key, nonce, ctr)))
                ctr += 1
            else:
                d = rb(r, r.choice((0, 1, 15, 16, 63, 64, 65, 127, 128, 129, 192, r.randrange(400))))
                o, ctr = ref.chacha_xor(key, nonce, ctr, d)
                ops.append(H(d))
                exp.append(H(o))
        yield 'chacha %s %s %s' % (key.hex(), nonce.hex(), ','.join(ops)), ' '.join(exp)
    # every length from every starting offset of the counter
    for n in range(0, 200):
        key, nonce, d = rb(r, 32), rb(r, 12), mixbytes(r, n)
        o, c = ref.chacha_xor(key, nonce, 0, d)
        o2, c = ref.chacha_xor(key, nonce, c, d)
        yield 'chacha %s %s %s,%s' % (key.hex(), nonce.hex(), H(d), H(d)), '%s %s' % (H(o), H(o2))
    for i in range(32 * 8):
        key, nonce = (1 << i).to_bytes(32, 'big'), (1 << (i % 96)).to_bytes(12, 'big')
        yield 'chacha %s %s n,n' % (key.hex(), nonce.hex()), '%s %s' % (H(ref.chacha_block(key, nonce, 0)), H(ref.chacha_block(key, nonce, 1)))
    for nblk in ([300] if not deep else [300, 1100]):
        key, nonce = rb(r, 32), rb(r, 12)
        d = rb(r, 64 * nblk - 7)
        yield 'chacha %s %s %s' % (key.hex(), nonce.hex(), H(d)), H(ref.chacha_xor(key, nonce, 0, d)[0])
    if deep:
        key, nonce = rb(r, 32), rb(r, 12)
        for k in (65534, 65535, 65536, 131071, 2**24 - 1, 2**24):
            yield 'chachaskip %s %s %d' % (key.hex(), nonce.hex(), k), H(ref.chacha_block(key, nonce, k) + ref.chacha_block(key, nonce, k + 1))


def _limbs(r):
    ls = [r.choice((0, 1, 2, 4, 5, 0x3ffffff, 0x3fffffe, 0x3fffffb, 0x3fffffa, 0x3fffffc, 0x2000000, r.getrandbits(26))) for _ in range(5)]
    v = sum(l << (26 * i) for i, l in enumerate(ls))
    return (v & (2**128 - 1)).to_bytes(16, 'little')


def c04(r, deep):
    rs = [bytes(16), b'\x01' + bytes(15), b'\x02' + bytes(15), b'\xff' * 16, b'\x04' + bytes(15)]
    for n in range(0, 70):
        for k in rs[1:4] + [rb(r, 16)]:
            s, m = mixbytes(r, 16), mixbytes(r, n)
            yield 'poly %s %s %s' % (H(k), H(s), H(m)), H(ref.poly1305(k, s, m))
    # the final value hits the neighbourhood of 2^130 - 5 and of its multiples
    k = b'\x01' + bytes(15)
    q = 2**130 - 5
    for d in range(-8, 9):
        for mult in (1, 2, 3):
            tgt = mult * q + d
            # 4..8 full blocks: sum of (2^128 + m_i) = tgt
            nb = next((n for n in range(1, 20) if 0 <= tgt - n * 2**128 <= n * (2**128 - 1)), None)
            if nb is None:
                continue
            rest = tgt - nb * 2**128
            ms = []
            for i in range(nb):
                x = min(rest, 2**128 - 1)
                ms.append(x)
                rest -= x
            r.shuffle(ms)
            m = b''.join(x.to_bytes(16, 'little') for x in ms)
            for s in (bytes(16), b'\xff' * 16, rb(r, 16)):
                yield 'poly %s %s %s' % (H(k), H(s), H(m)), H(ref.poly1305(k, s, m))
    for _ in range(600 if not deep else 8000):
        k = r.choice(rs + [_limbs(r), rb(r, 16), rb(r, 16)])
        s = r.choice((bytes(16), b'\xff' * 16, rb(r, 16), b'\xff' * 8 + bytes(8), b'\xff\xff\xff\xff' * 3 + rb(r, 4)))
        m = b''.join(r.choice((b'\xff' * 16, bytes(16), _limbs(r), _limbs(r), rb(r, 16), b'\xfb' + b'\xff' * 15)) for _ in range(r.randrange(0, 8)))
        m += rb(r, r.choice((0, 0, 1, 15, r.randrange(16))))
        yield 'poly %s %s %s' % (H(k), H(s), H(m)), H(ref.poly1305(k, s, m))


def c05(r, deep):
    yield 'sizes', None
    lens = [0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 256, 300]
    for n in lens:
        for an in (0, 1, 5, 12, 13, 15, 16, 17, 32, 33):
            key, nonce, ad, pl = mixbytes(r, 32), mixbytes(r, 12), rb(r, an), rb(r, n)
            c = ref.seal(key, nonce, ad, pl)
            yield 'seal %s %s %s %s' % (H(key), H(nonce), H(ad), H(pl)), H(c)
            yield 'open %s %s %s %s' % (H(key), H(nonce), H(ad), H(c)), 'ok ' + H(pl)
            bad = []
            b = bytearray(c)
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
            bad.append((nonce, ad, bytes(b)))
            bad.append((nonce, ad, c[:-1]))
            bad.append((nonce, ad, c + b'\0'))
            bad.append((nonce, ad + b'\0', c))
            bad.append((nonce, ad, c[:r.randrange(len(c))]))
            n2 = bytearray(nonce)
            n2[r.randrange(12)] ^= 0x10
            bad.append((bytes(n2), ad, c))
            if an:
                a2 = bytearray(ad)
                a2[r.randrange(an)] ^= 1
                bad.append((nonce, bytes(a2), c))
            for (nn, aa, cc) in bad:
                yield 'open %s %s %s %s' % (H(key), H(nn), H(aa), H(cc)), 'err BadRecordMac'
    # every single bit of a tag
    key, nonce, ad, pl = rb(r, 32), rb(r, 12), rb(r, 13), rb(r, 20)
    c = ref.seal(key, nonce, ad, pl)
    for bit in range(len(c) * 8):
        b = bytearray(c)
        b[bit // 8] ^= 1 << (bit % 8)
        yield 'open %s %s %s %s' % (H(key), H(nonce), H(ad), H(bytes(b))), 'err BadRecordMac'
    # differences that cancel under xor / sum
    for i in range(16):
        for j in range(16):
            if i != j:
                b = bytearray(c)
                b[-16 + i] ^= 0x5a
                b[-16 + j] ^= 0x5a
                yield 'open %s %s %s %s' % (H(key), H(nonce), H(ad), H(bytes(b))), 'err BadRecordMac'
    # every length of data and of additional data
    for n in range(0, 140):
        for an in (13, n, n % 20):
            key, nonce, ad, pl = rb(r, 32), mixbytes(r, 12), mixbytes(r, an), mixbytes(r, n)
            c = ref.seal(key, nonce, ad, pl)
            yield 'seal %s %s %s %s' % (H(key), H(nonce), H(ad), H(pl)), H(c)
            yield 'open %s %s %s %s' % (H(key), H(nonce), H(ad), H(c)), 'ok ' + H(pl)
    # the boundary between additional data and ciphertext moves; padding made explicit
    for an, n in ((13, 19), (16, 16), (5, 11), (0, 16), (16, 0), (3, 1), (20, 20)):
        key, nonce, ad, pl = rb(r, 32), rb(r, 12), rb(r, an), rb(r, n)
        c = ref.seal(key, nonce, ad, pl)
        for k in range(1, 17):
            yield 'open %s %s %s %s' % (H(key), H(nonce), H(ad + bytes(k)), H(c)), 'err BadRecordMac'
            yield 'open %s %s %s %s' % (H(key), H(nonce), H(ad), H(c[:-16] + bytes(k) + c[-16:])), 'err BadRecordMac'
            if k <= n:
                yield 'open %s %s %s %s' % (H(key), H(nonce), H(ad + c[:k]), H(c[k:])), 'err BadRecordMac'
            if k <= an:
                yield 'open %s %s %s %s' % (H(key), H(nonce), H(ad[:-k]), H(ad[-k:] + c)), 'err BadRecordMac'
                yield 'open %s %s %s %s' % (H(key), H(nonce), H(ad[:-k]), H(c)), 'err BadRecordMac'
    for n in (1000, 4096, 16384, 16385, 70000):
        key, nonce, ad, pl = rb(r, 32), rb(r, 12), rb(r, 13), rb(r, n)
        c = ref.seal(key, nonce, ad, pl)
        yield 'seal %s %s %s %s' % (H(key), H(nonce), H(ad), H(pl)), H(c)
        yield 'open %s %s %s %s' % (H(key), H(nonce), H(ad), H(c)), 'ok ' + H(pl)
    for n in range(0, 17):
        yield 'open %s %s %s %s' % (H(key), H(nonce), H(ad), H(rb(r, n))), 'err BadRecordMac'
    if deep:
        for _ in range(300):
            key, nonce, ad, pl = rb(r, 32), rb(r, 12), rb(r, r.randrange(70)), rb(r, r.randrange(1500))
            c = ref.seal(key, nonce, ad, pl)
            yield 'seal %s %s %s %s' % (H(key), H(nonce), H(ad), H(pl)), H(c)
            yield 'open %s %s %s %s' % (H(key), H(nonce), H(ad), H(c)), 'ok ' + H(pl)


def corner_fe(r):
    k = r.randrange(7)
    if k == 0:
        return r.choice((0, 1, 2, 3, P - 1, P - 2, P - 3, (P - 1) // 2, (P + 1) // 2, 2**255, 2**224, 2**192, 2**96, 2**256 - P))
    if k == 1:
        return r.randrange(P)
    if k == 2:
        return (1 << r.randrange(256)) % P
    if k == 3:
        return (P - (1 << r.randrange(256))) % P
    v = sum(r.choice((0, 1, 0xffffffff, 0xfffffffe, 0x80000000, 0x7fffffff, r.getrandbits(32))) << (32 * i) for i in range(8))
    return v if v < P else v % P


def c06(r, deep):
    vals = [0, 1, 2, P - 1, P - 2, 2**96, 2**192 - 1, 2**224, (P - 1) // 2, (P + 1) // 2, 2**255, P - 2**32]
    pairs = [(a, b) for a in vals for b in vals]
    pairs += [(corner_fe(r), corner_fe(r)) for _ in range(500 if not deep else 6000)]
    i2 = pow(2, P - 2, P)
    for a, b in pairs:
        yield 'fe add %s %s' % (fx(a), fx(b)), fx((a + b) % P)
        yield 'fe sub %s %s' % (fx(a), fx(b)), fx((a - b) % P)
        yield 'fe mult %s %s' % (fx(a), fx(b)), fx(a * b % P)
        yield 'fe cmp %s %s' % (fx(a), fx(b)), '0' if a == b else '1'
    for a, b in pairs[::3]:
        yield 'fe double %s' % fx(a), fx(2 * a % P)
        yield 'fe square %s' % fx(a), fx(a * a % P)
        yield 'fe half %s' % fx(a), fx(a * i2 % P)
        yield 'fe choose0 %s %s' % (fx(a), fx(b)), fx(a)
        yield 'fe choose1 %s %s' % (fx(a), fx(b)), fx(b)
        yield 'fe to_bytes %s' % fx(a), fx(a)
        yield 'fe from_bytes %s' % fx(a), fx(a)
        c = a ^ (1 << r.randrange(256))
        yield 'fe cmp %s %s' % (fx(a), fx(c)), '1'
    for a in vals + [corner_fe(r) for _ in range(60 if not deep else 600)]:
        yield 'fe inverse %s' % fx(a), fx(pow(a, P - 2, P))
    for v in (P, P + 1, 2**256 - 1, P + 2**32, P + 2**96, 2**256 - 2**32, P - 1, P + 2**200, P + r.randrange(2**224 - 2**193)):
        if v < 2**256:
            yield 'fe from_bytes %s' % fx(v), fx(v) if v < P else 'none'
    for n in (0, 1, 31, 33, 64):
        yield 'fe from_bytes %s' % H(rb(r, n)), 'none'


def rpoint(r):
    while True:
        p = ref.lift_x(r.randrange(P))
        if p:
            return p if r.random() < .5 else (p[0], P - p[1])


def c07(r, deep):
    def nm(p):
        return '%s %s' % (fx(0), fx(0)) if p is None else '%s %s' % (fx(p[0]), fx(p[1]))
    sc = list(range(0, 18)) + [N - 2, N - 1, N, N + 1, N + 2, N + 3, 2**256 - 1, 2**255, 2**256 - 2**32, (N + 1) // 2, (N - 1) // 2,
                               2**224, 2**224 - 1, 2**32, 2**32 - 1, 2**64, 2**128 + 1, 2**192, P, 0xffffffff << 224]
    sc += [1 << i for i in range(0, 256, 7)]
    sc += [1 << i for i in range(256)] + [(1 << i) - 1 for i in range(1, 257)] + [(1 << 256) - (1 << i) for i in range(1, 256)]
    sc += [r.getrandbits(256) for _ in range(100 if not deep else 600)]
    sc += [N + i for i in range(4, 20)] + [N - i for i in range(3, 20)] + [r.getrandbits(32) << r.randrange(224) for _ in range(60)]
    for n in sc:
        for p in ([G] if n > 20 and not deep else [G, rpoint(r)]):
            yield 'smul %s %s %s' % (fx(p[0]), fx(p[1]), fx(n)), nm(ref.pt_mul(n, p))
    for n in (0, 1, 2, N, 2**256 - 1):
        yield 'smul inf . %s' % fx(n), nm(None)
    for _ in range(30 if not deep else 300):
        p = r.choice((G, rpoint(r)))
        a, b = r.choice((r.getrandbits(256), 2, 3, N - 1)), r.choice((r.getrandbits(256), N - 1, N, N + 1, N + 2, 2, 3))
        yield 'smul %s %s %s,%s' % (fx(p[0]), fx(p[1]), fx(a), fx(b)), nm(ref.pt_mul(b, ref.pt_mul(a, p)))


# (x, y) on the curve with y < 2^256 - p, found by root finding: used for the
# non-canonical y encodings
SMALL_Y = None


def small_y():
    global SMALL_Y
    if SMALL_Y is None:
        y = 1
        while True:
            x = cubic_root((B - y * y) % P)
            if x is not None:
                SMALL_Y = (x, y)
                break
            y += 1
    return SMALL_Y


def cubic_root(c):
    """a root of x^3 - 3x + c mod P, or None"""
    f = [c, -3 % P, 0]  # monic cubic

    def mul(a, b):
        t = [0] * 5
        for i, x in enumerate(a):
            for j, z in enumerate(b):
                t[i + j] += x * z
        for d in (4, 3):
            k = t[d] % P
            t[d] = 0
            t[d - 3] -= k * f[0]
            t[d - 2] -= k * f[1]
            t[d - 1] -= k * f[2]
        return [v % P for v in t[:3]]

    def powx(base, e):
        res = [1, 0, 0]
        for bit in bin(e)[2:]:
            res = mul(res, res)
            if bit == '1':
                res = mul(res, base)
        return res

    def gcd(a, b):
        def trim(v):
            while v and v[-1] % P == 0:
                v.pop()
            return v
        a, b = trim(a[:]), trim(b[:])
        while b:
            iv = pow(b[-1], P - 2, P)
            while len(a) >= len(b):
                k = a[-1] * iv % P
                sh = len(a) - len(b)
                for i, v in enumerate(b):
                    a[sh + i] = (a[sh + i] - k * v) % P
                a = trim(a)
                if not a:
                    break
            a, b = b, a
        return a
    xp = powx([0, 1, 0], P)
    xp[1] = (xp[1] - 1) % P
    g = gcd(f + [1], xp)
    if len(g) < 2:
        return None
    if len(g) == 2:
        return -g[0] * pow(g[1], P - 2, P) % P
    return None


def c08(r, deep):
    def dec(b):
        if len(b) != 65 or b[0] != 4:
            return 'none'
        x, y = int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big')
        if x >= P or y >= P or not ref.on_curve(x, y):
            return 'none'
        return '%s %s %s' % (fx(x), fx(y), b.hex())
    bs = []
    for _ in range(400 if not deep else 3000):
        p = rpoint(r)
        e = ref.pt_enc(p)
        bs.append(e)
        b = bytearray(e)
        b[r.randrange(65)] ^= 1 << r.randrange(8)
        bs.append(bytes(b))
        bs.append(ref.pt_enc((p[0], P - p[1])))
        bs.append(ref.pt_enc((p[1], p[0])))
        bs.append(e[:-1])
        bs.append(e + b'\0')
    for e in (ref.pt_enc(G), ref.pt_enc(rpoint(r))):
        for bit in range(65 * 8):
            b = bytearray(e)
            b[bit // 8] ^= 1 << (bit % 8)
            bs.append(bytes(b))
    # coordinates of unusual shape
    for n in EDGE_X + EDGE_Y:
        p = ref.pt_mul(n, G)
        bs += [ref.pt_enc(p), ref.pt_enc((p[0], P - p[1]))]
    e = ref.pt_enc(G)
    for t in range(256):
        bs.append(bytes([t]) + e[1:])
    for n in range(0, 70):
        bs.append((e + bytes(10))[:n])
    k = 0
    x = 0
    while k < 8:
        p = ref.lift_x(x)
        if p:
            k += 1
            bs += [bytes([t]) + ref.pt_enc(p)[1:] for t in (0, 2, 3, 5, 6, 7)]
            for yy in (p[1], P - p[1]):
                bs.append(ref.pt_enc((x, yy)))
                bs.append(b'\x04' + (x + P).to_bytes(32, 'big') + yy.to_bytes(32, 'big'))
        x += 1
    sx, sy = small_y()
    bs.append(ref.pt_enc((sx, sy)))
    bs.append(b'\x04' + sx.to_bytes(32, 'big') + (sy + P).to_bytes(32, 'big'))
    bs.append(b'\x04' + bytes(64))
    bs.append(b'\x04' + b'\xff' * 64)
    bs.append(b'\x04' + P.to_bytes(32, 'big') + P.to_bytes(32, 'big'))
    bs.append(b'\x04' + P.to_bytes(32, 'big') + bytes(32))
    for b in bs:
        yield 'ptdec ' + H(b), dec(b)
    for p in [rpoint(r) for _ in range(40)] + [ref.pt_mul(n, G) for n in EDGE_X + EDGE_Y]:
        yield 'ptenc %s %s' % (fx(p[0]), fx(p[1])), ref.pt_enc(p).hex()


def ske(point, curve=23, ctype=3, sig=b'\x01\x02\x03', hashalg=4, sigalg=1, siglen=None):
    sl = len(sig) if siglen is None else siglen
    return bytes([ctype]) + struct.pack('>H', curve) + bytes([len(point)]) + point + bytes([hashalg, sigalg]) + struct.pack('>H', sl) + sig


# multiples e of the base point whose coordinates have an unusual shape
EDGE_X = [379, 552, 40393, 116173, 273, 567, 65526, 134047, 172, 293, 126939, 47376, 833, 4]
EDGE_Y = [43, 444, 2376, 61552, 104, 376]


def c09(r, deep):
    def ok(s):
        def chk(ans):
            t = ans.split(' ')
            if t[0] != 'ok':
                return 'key agreement failed on a valid message'
            pub, sec = bytes.fromhex(t[1]), bytes.fromhex(t[2])
            if len(pub) != 66 or pub[0] != 65 or pub[1] != 4:
                return 'client share is not a length-prefixed uncompressed point'
            x, y = int.from_bytes(pub[2:34], 'big'), int.from_bytes(pub[34:], 'big')
            if x >= P or y >= P or not ref.on_curve(x, y):
                return 'client share is not d*G with 1 <= d < n'
            if ref.pt_mul(s, (x, y))[0].to_bytes(32, 'big') != sec:
                return 'secret is not the x-coordinate of d times the server point'
            return None
        return chk

    def err(ans):
        return None if ans.startswith('err ') else 'accepted or crashed: ' + ans[:80]
    for i in range(20 if not deep else 150):
        s = r.randrange(1, N)
        q = ref.pt_mul(s, G)
        rnd = rb(r, 40)
        yield 'kex %s %s' % (H(ske(ref.pt_enc(q), sig=rb(r, r.choice((0, 1, 64, 256))))), rnd.hex()), ok(s)
    # the shared point, the server's point and the client's point at unusual coordinates
    # (the scalar is the first 32 random bytes, least significant byte first)
    for e in EDGE_X + EDGE_Y:
        d = r.randrange(2, N)
        s = e * pow(d, -1, N) % N
        yield 'kex %s %s' % (H(ske(ref.pt_enc(ref.pt_mul(s, G)))), (d.to_bytes(32, 'little') + rb(r, 32)).hex()), ok(s)
        yield 'kex %s %s' % (H(ske(ref.pt_enc(ref.pt_mul(e, G)))), rb(r, 64).hex()), ok(e)
        s = r.randrange(1, N)
        yield 'kex %s %s' % (H(ske(ref.pt_enc(ref.pt_mul(s, G)))), (e.to_bytes(32, 'little') + rb(r, 32)).hex()), ok(s)
    s = r.randrange(1, N)
    q = ref.pt_enc(ref.pt_mul(s, G))
    good = ske(q)
    for d in (0, N, 2**256 - 1, N + 1, P, N - 1, 1, N - 2, 2, N + 2, 2**255, 2**224, 2**32, 2**256 - 2**32, 255, 256, 0xff << 248):
        le = d.to_bytes(32, 'little')
        be = d.to_bytes(32, 'big')
        yield 'kex %s %s' % (good.hex(), (le + rb(r, 32)).hex()), ok(s)
        yield 'kex %s %s' % (good.hex(), (be + rb(r, 32)).hex()), ok(s)
    rnd = rb(r, 64).hex()
    bad = [good + b'\0', good + good, b'', good[:-1]]
    bad += [good[:k] for k in range(len(good))]
    for c in list(range(0, 64)) + [0xff01, 0xff02, 0x1700, 0x0117, 0x8017, 0x1717, 0x2317, 0x17ff, 0xff17, 0xffff, 30, 0x100]:
        if c != 23:
            bad.append(ske(q, curve=c))
    for t in range(256):
        if t != 3:
            bad.append(ske(q, ctype=t))
            if t % 16 == 3:
                bad.append(ske(q, ctype=t, curve=24))
    bad += [ske(b'\x02' + q[1:]), ske(q[:64]), ske(q + b'\0'), ske(b''), ske(b'\0'), ske(q, hashalg=7), ske(q, sigalg=4), ske(q, siglen=4), ske(q, siglen=2)]
    bad.append(ske(b'\x04' + bytes(64)))
    for t in list(range(0, 4)) + list(range(5, 9)) + [0x40, 0x44, 0x84, 0xff]:
        bad.append(ske(bytes([t]) + q[1:]))
        bad.append(ske(bytes([t]) + q[1:33]))
    for k in range(0, 130):
        if k != 65:
            bad.append(ske((q + q)[:k]))
    bad += [ske(q, hashalg=h, sigalg=g) for h in range(0, 256, 5) for g in range(0, 256, 5) if not (h < 7 and g < 4)]
    bad += [ske(q, sig=rb(r, 40), siglen=x) for x in (0, 1, 39, 41, 40 + 256, 0xffff)]
    for _ in range(20):
        b = bytearray(q)
        b[r.randrange(1, 65)] ^= 1 << r.randrange(8)
        bad.append(ske(bytes(b)))
    x = 5
    p = ref.lift_x(x)
    while not p:
        x += 1
        p = ref.lift_x(x)
    bad.append(ske(b'\x04' + (x + P).to_bytes(32, 'big') + p[1].to_bytes(32, 'big')))
    for b in bad:
        yield 'kex %s %s' % (H(b), rnd), err


def key_blocks(r):
    """random bytes that give a private key: some blocks of 32 bytes out of range, one in range, more bytes; -> (bytes, key)"""
    out = (0, N, N + 1, 2**256 - 1, N + r.randrange(2**256 - N), r.randrange(N, 2**256), 2**256 - 2**32, N + 2**32, N ^ (1 << r.randrange(224, 256)) | 15 << 252)
    k = r.choice((0, 0, 0, 1, 1, 2, 3, 6))
    bl = [x for x in (r.choice(out) for _ in range(k)) if not 1 <= x < N]
    d = r.choice((1, 2, N - 1, N - 2, 2**255, 2**224 + 5, 2**32, 255, r.randrange(1, 2**64), r.randrange(N - 2**64, N), (N - 1) ^ (1 << r.randrange(223)),
                  int.from_bytes(mixbytes(r, 32), 'little') % (N - 1) + 1) + tuple(r.randrange(1, N) for _ in range(6)))
    if not 1 <= d < N:
        d = 7
    return b''.join(x.to_bytes(32, 'little') for x in bl + [d]) + rb(r, 96), d


def c22(r, deep):
    def share(d):
        want = b'A' + ref.pt_enc(ref.pt_mul(d, G))

        def chk(ans):
            t = ans.split(' ')
            if t[0] != 'ok':
                return 'key agreement failed on a valid message'
            if bytes.fromhex(t[1]) != want:
                return 'the private key is not the first block in range that the random source delivers (%d)' % d
        return chk
    q = ske(ref.pt_enc(ref.pt_mul(r.randrange(1, N), G)))
    for i in range(150 if not deep else 900):
        if i % 10 == 0:
            q = ske(ref.pt_enc(ref.pt_mul(r.randrange(1, N), G)), sig=rb(r, r.choice((0, 1, 64, 256))))
        b, d = key_blocks(r)
        yield 'kex %s %s' % (q.hex(), b.hex()), share(d)


def c20(r, deep):
    def script(data):
        out, p = [], 0
        while p < len(data):
            if r.random() < .25:
                out.append('I')
            k = r.choice((1, 1, 2, 3, 7, len(data)))
            out.append(data[p:p + k].hex())
            p += k
        return out
    for _ in range(300 if not deep else 3000):
        n = r.choice((0, 1, 2, 3, 4, 8, 16, r.randrange(60)))
        extra = r.choice((0, 0, 1, 5))
        data = rb(r, n + extra)
        how = r.choice('vf')
        sc = script(data)
        yield 'fill %s %d %s' % (','.join(sc) or '-', n, how), 'ok %s %d' % (H(data[:n]), n)
        if n:
            cut = r.randrange(n)
            sc = script(data[:cut])
            yield 'fill %s %d %s' % (','.join(sc) or '-', n, how), lambda a: None if a.startswith('err ') else 'short stream not reported: ' + a[:80]
            yield 'fill %s %d %s' % (','.join(sc + ['E'] + [data[cut:].hex() or '00']), n, how), lambda a: None if a.startswith('err ') else 'transport error not reported: ' + a[:80]
    for op, n, f in (('u8', 1, 'B'), ('be16', 2, '>H'), ('le16', 2, '<H'), ('be32', 4, '>I'), ('le32', 4, '<I'), ('be64', 8, '>Q'), ('le64', 8, '<Q')):
        for _ in range(25):
            d = mixbytes(r, n)
            v = struct.unpack(f, d)[0]
            yield 'fill %s 0 %s' % (','.join(script(d + b'\x99')), op), 'ok %d %d' % (v, n)
            yield 'wr %s %d' % (op, v), d.hex()
            yield 'wr %s %d 1' % (op, v), d.hex()
            for k in range(n):
                yield 'fill %s 0 %s' % (','.join(script(d[:k])) or '-', op), lambda a: None if a.startswith('err ') else 'short stream not reported'
    for op, f in (('be64', '>Q'), ('le64', '<Q'), ('be32', '>I'), ('le32', '<I')):
        for _ in range(20):
            n = struct.calcsize(f)
            d = mixbytes(r, n)
            yield 'arr %s %d' % (op, struct.unpack(f, d)[0]), d.hex()
    for n in list(range(0, 20)) + [32, 33, 64, 300]:
        a = rb(r, n)
        yield 'ccmp %s %s' % (H(a), H(a)), 'true'
        for i in range(min(n, 40)):
            for bit in range(8):
                b = bytearray(a)
                b[i] ^= 1 << bit
                yield 'ccmp %s %s' % (H(a), H(bytes(b))), 'false'
            if i:
                b = bytearray(a)
                b[i] ^= 0x33
                b[i - 1] ^= 0x33
                yield 'ccmp %s %s' % (H(a), H(bytes(b))), 'false'
                b = bytearray(a)
                b[i] ^= 0x80
                b[i - 1] ^= 0x01
                yield 'ccmp %s %s' % (H(a), H(bytes(b))), 'false'
