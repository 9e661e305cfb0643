"""Reference implementations (written from the RFCs / FIPS documents, sharing
no code with /repo) used to replay concrete inputs against the real code."""
import hashlib, hmac as _hmac, struct

P = 2**256 - 2**224 + 2**192 + 2**96 - 1
N = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
B = 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b
GX = 0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296
GY = 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5
G = (GX, GY)


def sha256(m):
    return hashlib.sha256(m).digest()


def hmac(k, m):
    return _hmac.new(k, m, hashlib.sha256).digest()


def prf(secret, seed, n):
    out = b''
    a = seed
    while len(out) < n:
        a = hmac(secret, a)
        out += hmac(secret, a + seed)
    return out[:n]


def _rotl(x, n):
    return ((x << n) | (x >> (32 - n))) & 0xffffffff


def chacha_block(key, nonce, ctr):
    st = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574] + list(struct.unpack('<8I', key)) + [ctr] + list(struct.unpack('<3I', nonce))
    w = st[:]

    def qr(a, b, c, d):
        w[a] = (w[a] + w[b]) & 0xffffffff
        w[d] = _rotl(w[d] ^ w[a], 16)
        w[c] = (w[c] + w[d]) & 0xffffffff
        w[b] = _rotl(w[b] ^ w[c], 12)
        w[a] = (w[a] + w[b]) & 0xffffffff
        w[d] = _rotl(w[d] ^ w[a], 8)
        w[c] = (w[c] + w[d]) & 0xffffffff
        w[b] = _rotl(w[b] ^ w[c], 7)
    for _ in range(10):
        qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15)
        qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14)
    return struct.pack('<16I', *[(a + b) & 0xffffffff for a, b in zip(w, st)])


def chacha_xor(key, nonce, ctr, data):
    out = bytearray()
    for i in range(0, len(data), 64):
        ks = chacha_block(key, nonce, ctr)
        ctr += 1
        out += bytes(a ^ b for a, b in zip(ks, data[i:i + 64]))
    return bytes(out), ctr


def poly1305(r, s, msg):
    r = int.from_bytes(r, 'little') & 0x0ffffffc0ffffffc0ffffffc0fffffff
    s = int.from_bytes(s, 'little')
    acc = 0
    for i in range(0, len(msg), 16):
        b = msg[i:i + 16]
        acc = (acc + int.from_bytes(b + b'\x01', 'little')) * r % (2**130 - 5)
    return ((acc + s) % 2**128).to_bytes(16, 'little')


def pad16(x):
    return b'\0' * (-len(x) % 16)


def seal(key, nonce, ad, plain):
    otk = chacha_block(key, nonce, 0)
    ct, _ = chacha_xor(key, nonce, 1, plain)
    m = ad + pad16(ad) + ct + pad16(ct) + struct.pack('<QQ', len(ad), len(ct))
    return ct + poly1305(otk[:16], otk[16:32], m)


def open_(key, nonce, ad, data):
    if len(data) < 16:
        return None
    ct, tag = data[:-16], data[-16:]
    p, _ = chacha_xor(key, nonce, 1, ct)
    return p if seal(key, nonce, ad, p) == data else None


# ---- P-256, Jacobian arithmetic on Python integers; None is infinity
def inv(x):
    return pow(x, P - 2, P)


def on_curve(x, y):
    return (y * y - (x * x * x - 3 * x + B)) % P == 0


def pt_add(a, b):
    if a is None:
        return b
    if b is None:
        return a
    x1, y1 = a
    x2, y2 = b
    if x1 == x2:
        if (y1 + y2) % P == 0:
            return None
        l = (3 * x1 * x1 - 3) * inv(2 * y1) % P
    else:
        l = (y2 - y1) * inv(x2 - x1) % P
    x3 = (l * l - x1 - x2) % P
    return (x3, (l * (x1 - x3) - y1) % P)


def _jdbl(p):
    X, Y, Z = p
    if Z == 0 or Y == 0:
        return (1, 1, 0)
    S = 4 * X * Y * Y % P
    M = (3 * X * X - 3 * pow(Z, 4, P)) % P
    X3 = (M * M - 2 * S) % P
    Y3 = (M * (S - X3) - 8 * pow(Y, 4, P)) % P
    return (X3, Y3, 2 * Y * Z % P)


def _jadd(p, q):
    if p[2] == 0:
        return q
    if q[2] == 0:
        return p
    X1, Y1, Z1 = p
    X2, Y2, Z2 = q
    U1 = X1 * Z2 * Z2 % P
    U2 = X2 * Z1 * Z1 % P
    S1 = Y1 * Z2 * Z2 * Z2 % P
    S2 = Y2 * Z1 * Z1 * Z1 % P
    if U1 == U2:
        return _jdbl(p) if S1 == S2 else (1, 1, 0)
    H = (U2 - U1) % P
    R = (S2 - S1) % P
    H2 = H * H % P
    H3 = H2 * H % P
    X3 = (R * R - H3 - 2 * U1 * H2) % P
    return (X3, (R * (U1 * H2 - X3) - S1 * H3) % P, H * Z1 * Z2 % P)


def pt_mul(n, a):
    if a is None:
        return None
    r = (1, 1, 0)
    p = (a[0], a[1], 1)
    for b in bin(n)[2:] if n else '':
        r = _jdbl(r)
        if b == '1':
            r = _jadd(r, p)
    if r[2] == 0:
        return None
    zi = inv(r[2])
    return (r[0] * zi * zi % P, r[1] * zi * zi * zi % P)


def lift_x(x):
    y2 = (x * x * x - 3 * x + B) % P
    y = pow(y2, (P + 1) // 4, P)
    return (x, y) if y * y % P == y2 else None


def pt_enc(p):
    return b'\x04' + p[0].to_bytes(32, 'big') + p[1].to_bytes(32, 'big')
