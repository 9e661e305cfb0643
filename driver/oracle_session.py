"""Concrete oracle C16..C19: the real client of /repo (probe session) against
an independent TLS 1.2 peer, which may misbehave in every way listed here.

A scenario is a JSON value; run_scenario gives the violations it shows as
(property, text) pairs."""
import json, multiprocessing, os, random, select, struct, subprocess, tempfile, time
import ref
from oracle_crypto import H, rb, ske, EDGE_X, EDGE_Y
from oracle_items import model_reader, expect_item, rec, nonce, aad, gen, fixlen, mutate, ALERTS

KIND_ALERT = {'UnexpectedMessage': 10, 'BadRecordMac': 20, 'RecordOverflow': 22, 'IllegalParameter': 47,
              'DecodeError': 50, 'DecryptError': 51, 'InternalError': 80, 'AlertReceived': 0}


class Hang(Exception):
    pass


class Gone(Exception):
    pass


class Sess:
    def __init__(self, exe, opts):
        # standard error and the operations go through files: neither fits a pipe or an argument
        self.err = tempfile.TemporaryFile()
        self.ops = tempfile.NamedTemporaryFile('w', suffix='.ops')
        self.ops.write(opts.get('ops', ''))
        self.ops.flush()
        a = dict(opts, ops='@' + self.ops.name)
        self.p = subprocess.Popen([exe, 'session'] + ['%s=%s' % kv for kv in a.items()], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, bufsize=0)
        self.out = b''       # everything received
        self.pos = 0         # consumed by next_rec
        self.eof = False

    def fill(self, timeout):
        if self.eof:
            return False
        if not select.select([self.p.stdout], [], [], timeout)[0]:
            raise Hang()
        c = os.read(self.p.stdout.fileno(), 1 << 18)
        if not c:
            self.eof = True
            return False
        self.out += c
        return True

    def next_rec(self, timeout=20):
        """-> (type, version, body) or None at the end of the output"""
        while True:
            b = self.out[self.pos:]
            if len(b) >= 5:
                n = struct.unpack('>H', b[3:5])[0]
                if len(b) >= 5 + n:
                    self.pos += 5 + n
                    return b[0], (b[1], b[2]), b[5:5 + n]
            if not self.fill(timeout):
                return None

    def send(self, b):
        fd = self.p.stdin.fileno()
        try:
            while b:
                # keep draining the output, so that neither side blocks
                r, w, _ = select.select([self.p.stdout] if not self.eof else [], [fd], [], 20)
                if not r and not w:
                    raise Hang()
                if r:
                    self.fill(1)
                if w:
                    b = b[os.write(fd, b[:30000]):]
        except (BrokenPipeError, ValueError):
            pass

    def shut(self):
        try:
            self.p.stdin.close()
        except (BrokenPipeError, ValueError):
            pass

    def finish(self):
        self.shut()
        while self.fill(20):
            pass
        self.p.wait()
        self.err.seek(0)
        return self.err.read().decode(errors='replace').splitlines()

    def kill(self):
        self.p.kill()
        for f in (self.p.stdin, self.p.stdout, self.err, self.ops):
            try:
                f.close()
            except BrokenPipeError:
                pass
        self.p.wait()


def hs(ty, b):
    return bytes([ty]) + len(b).to_bytes(3, 'big') + b


def chunks(b, sizes):
    if not sizes:
        return [b]
    out, i = [], 0
    while b:
        n = max(1, sizes[i % len(sizes)])
        out.append(b[:n])
        b = b[n:]
        i += 1
    return out or [b'']


def check_hello(body):
    """the ClientHello message (whole handshake message)"""
    def fail(t):
        return 'ClientHello: ' + t
    if body[:1] != b'\x01' or int.from_bytes(body[1:4], 'big') != len(body) - 4:
        return fail('bad handshake header'), None
    b = body[4:]
    if b[:2] != b'\x03\x03':
        return fail('version %s' % b[:2].hex()), None
    cr = b[2:34]
    if len(cr) != 32:
        return fail('short random'), None
    p = 34
    if b[p:p + 1] != b'\0':
        return fail('session id is not empty'), None
    p += 1
    if b[p:p + 4] != b'\0\x02\xcc\xa8':
        return fail('offered cipher suites ' + b[p:p + 8].hex()), None
    p += 4
    if b[p:p + 2] != b'\x01\0':
        return fail('offered compression ' + b[p:p + 4].hex()), None
    p += 2
    n = int.from_bytes(b[p:p + 2], 'big')
    e = b[p + 2:]
    if n != len(e) or len(b) < p + 2:
        return fail('extension block length'), None
    want = {10: b'\0\x02\0\x17', 11: b'\x01\0', 13: b'\0\x02\x04\x01'}
    seen = set()
    while e:
        if len(e) < 4:
            return fail('malformed extension'), None
        ty, l = struct.unpack('>HH', e[:4])
        if ty in seen or ty not in want or e[4:4 + l] != want[ty] or len(e) < 4 + l:
            return fail('extension %d with contents %s' % (ty, e[4:4 + l].hex())), None
        seen.add(ty)
        e = e[4 + l:]
    return None, cr


class Peer:
    """key schedule and record protection of the server, written from RFC 5246 / 7905"""

    def __init__(self, cr, sr, premaster):
        self.master = ref.prf(premaster, b'master secret' + cr + sr, 48)
        kb = ref.prf(self.master, b'key expansion' + sr + cr, 88)
        self.ck, self.sk, self.civ, self.siv = kb[:32], kb[32:64], kb[64:76], kb[76:88]
        self.cn = self.sn = 0

    def open(self, ty, ver, body):
        if len(body) < 16:
            return None
        r = ref.open_(self.ck, nonce(self.civ, self.cn), aad(self.cn, ty, ver, len(body) - 16), body)
        self.cn += 1
        return r

    def seal(self, ty, data, bad=None):
        n = self.sn
        nn, ad = nonce(self.siv, n), aad(n, ty, (3, 3), len(data))
        key = self.sk
        ver = (3, 3)
        if bad == 'seq+1':
            nn, ad = nonce(self.siv, n + 1), aad(n + 1, ty, (3, 3), len(data))
        elif bad == 'seq-1':
            m = max(0, n - 1) if n else 5
            nn, ad = nonce(self.siv, m), aad(m, ty, (3, 3), len(data))
        elif bad == 'clientkey':
            key = self.ck
        elif bad == 'clientiv':
            nn = nonce(self.civ, n)
        elif bad == 'noiv':
            nn = nonce(bytes(12), n)
        elif bad == 'type':
            ad = aad(n, ty ^ 1, (3, 3), len(data))
        elif bad == 'ver':
            ver = (3, 1)
        b = ref.seal(key, nn, ad, data)
        if bad and bad.startswith('flip'):
            k = int(bad[4:])
            x = bytearray(b)
            x[k % len(x)] ^= 1 << (k % 8)
            b = bytes(x)
        elif bad and bad.startswith('cut'):
            b = b[:max(0, len(b) - int(bad[3:]))]
        self.sn += 1
        return rec(ty, b, ver)


BADSEAL = ['seq+1', 'seq-1', 'clientkey', 'clientiv', 'noiv', 'type', 'ver', 'flip0', 'flip-1', 'flip-7', 'flip-16', 'flip3', 'cut1', 'cut16', 'cut99999']


def run_scenario(exe, sc):
    """-> (list of (property, text), note)"""
    s = None
    try:
        s = Sess(exe, sc['opts'])
        return _run(s, sc)
    except Hang:
        return [('*', 'the client hangs')], 'hang'
    finally:
        if s:
            s.kill()


def _run(s, sc):
    V = []

    def v(p, t):
        for q in p.split():
            V.append((q, t))
    opts = sc['opts']
    outfail = 'outfail' in opts
    # ---------------------------------------------------------- ClientHello
    flight1 = bytes.fromhex(sc['flight1'])
    ch = b''
    while True:
        r = s.next_rec()
        if r is None:
            break
        if r[0] != 22 or r[1] != (3, 3):
            v('C16 C10', 'first record of the client is type %d version %s' % r[:2])
            break
        ch += r[2]
        if len(ch) >= 4 and len(ch) >= 4 + int.from_bytes(ch[1:4], 'big'):
            break
    cr = None
    if r is None:
        if not outfail:
            v('C16', 'the client sends no ClientHello')
    elif not V:
        e, cr = check_hello(ch)
        if e:
            v('C16', e)
    drawn = bytes.fromhex(opts.get('rand', ''))
    if cr is not None and len(drawn) >= 32 and cr != drawn[:32]:
        v('C22', 'the client random is %s; the random source has delivered %s' % (cr.hex(), drawn[:32].hex()))
    # ---------------------------------------------------------- flight 1
    plain2 = b''.join(bytes.fromhex(x[1]) for x in sc['flight2'] if x[0] == 'raw')
    full = flight1
    # what the client must make of it
    exp, fail = [], None            # fail: (set of kinds | None, text)
    ans, _ = model_reader(flight1, nmax=12)
    sh = cert = kx = None
    ok1 = False
    premaster_pt = None
    stage = 0
    sr_seen = None
    for a in ans:
        if stage == 4:
            break
        if a == 'C' or a.startswith('D:'):
            fail = ({'UnexpectedMessage'}, 'record %s in the first server flight' % a[:20])
            break
        if a.startswith('A:'):
            fail = ({'AlertReceived'}, 'alert in the first server flight')
            break
        if a == 'E' or a.startswith('H:!'):
            fail = (None, 'malformed handshake message')
            break
        if a.startswith('E:'):
            k = a[2:]
            fail = ({k}, 'stream ends in the first server flight' if k == 'IoFailure' else 'bad record: ' + k)
            break
        m = bytes.fromhex(a[2:])
        if m[0] != (2, 11, 12, 14)[stage]:
            fail = ({'UnexpectedMessage'}, 'handshake message %d in place of %d' % (m[0], (2, 11, 12, 14)[stage]))
            break
        if stage == 0:
            n = m[38]
            if m[4:6] != b'\x03\x03' or m[39 + n:42 + n] != b'\xcc\xa8\0':
                fail = ({'IllegalParameter'}, 'ServerHello with parameters %s %s' % (m[4:6].hex(), m[39 + n:42 + n].hex()))
                break
            sr_seen = m[6:38]
        elif stage == 2:
            ok, pt = check_ske(m[4:])
            if not ok:
                fail = (None, 'unacceptable ServerKeyExchange')
                break
            premaster_pt = pt
        exp.append(m)
        stage += 1
    infail = 'infail' in opts
    if stage < 4 and fail is None:
        fail = ({'IoFailure'}, 'stream ends in the first server flight')
    s.send(flight1)
    if fail and fail[0] == {'IoFailure'} or sc.get('shut1'):
        s.shut()
    # ---------------------------------------------------------- client flight 2
    peer = None
    cke = b''
    got_ccs = False
    bad = False
    fin_plain = None
    trail = []                      # records of the client after its flight
    while not bad and cr is not None:
        r = s.next_rec()
        if r is None:
            break
        ty, ver, body = r
        if not got_ccs and ty == 22:
            cke += body
            continue
        if not got_ccs and ty == 20:
            got_ccs = True
            if body != b'\x01' or ver != (3, 3):
                v('C16', 'ChangeCipherSpec record %s' % body.hex())
            n = int.from_bytes(cke[1:4], 'big') if len(cke) >= 4 else -1
            if len(cke) < 5 or cke[0] != 16 or n != len(cke) - 4 or cke[4] != n - 1:
                v('C16', 'ClientKeyExchange is %s' % cke[:80].hex())
                bad = True
                break
            pt = point(cke[5:])
            if pt is None:
                v('C16 C17', 'ClientKeyExchange carries no point of the curve')
                bad = True
                break
            for i in range(32, len(drawn) - 31, 32):
                d = int.from_bytes(drawn[i:i + 32], 'little')
                if 1 <= d < ref.N:
                    if pt != ref.pt_mul(d, ref.G):
                        v('C22', 'the private key is not the first block in range that the random source delivers after the client random')
                    break
            # (when the client goes on although it must not, play along)
            sh_pt = ref.pt_mul(sc['d'], pt)
            peer = Peer(cr, sr_seen or bytes.fromhex(sc['srandom']), sh_pt[0].to_bytes(32, 'big') if sh_pt else bytes(32))
            continue
        if got_ccs and fin_plain is None:
            if ty == 21 and fail is None:
                trail.append(r)
                break
            p = peer.open(ty, ver, body)
            if ty != 22 or p is None or ver != (3, 3):
                v('C16 C17', 'after ChangeCipherSpec the client sends a type %d record that %s' % (ty, 'is no Finished' if p is not None else 'does not decrypt under its write key'))
                bad = True
                break
            fin_plain = p
            tr = ch + b''.join(exp) + cke
            want = hs(20, ref.prf(peer.master, b'client finished' + ref.sha256(tr), 12))
            if len(exp) == 4 and p != want:
                v('C16 C17', 'client Finished is %s instead of %s' % (p.hex(), want.hex()))
            break
        trail.append(r)
        break
    # ---------------------------------------------------------- server flight 2
    app = b''
    events = []
    established = False
    if peer is not None and fin_plain is not None and not bad:
        if fail is None:
            # messages after the first four, still unread
            rest = flight1
        tr = ch + b''.join(exp) + cke
        out = b''
        ccs = False
        tr_s = tr + fin_plain
        good_fin = ref.prf(peer.master, b'server finished' + ref.sha256(tr_s), 12)
        for x in sc['flight2']:
            if x[0] == 'raw':
                out += bytes.fromhex(x[1])
            elif x[0] == 'ccs':
                out += rec(20, b'\x01')
            elif x[0] in ('fin', 'finplain'):
                mode = x[1]
                f = good_fin
                if mode.startswith('flip'):
                    k = int(mode[4:])
                    f = bytearray(f)
                    f[k // 8] ^= 1 << (k % 8)
                    f = bytes(f)
                elif mode == 'client':
                    f = ref.prf(peer.master, b'client finished' + ref.sha256(tr), 12)
                elif mode == 'nofin':
                    f = ref.prf(peer.master, b'server finished' + ref.sha256(tr), 12)
                elif mode == 'zero':
                    f = bytes(12)
                elif mode.startswith('perm'):
                    f = bytearray(f)
                    k = int(mode[4:])
                    f[k], f[k + 1] = f[k + 1], f[k]
                    if bytes(f) == good_fin:
                        f[k] ^= 1
                    f = bytes(f)
                elif mode == 'xor':
                    f = bytearray(f)
                    f[0] ^= 0x55
                    f[1] ^= 0x55
                    f = bytes(f)
                elif mode == 'sum':
                    f = bytearray(f)
                    f[2] = (f[2] + 1) & 255
                    f[7] = (f[7] - 1) & 255
                    f = bytes(f)
                elif mode == 'short':
                    f = f[:11]
                elif mode == 'long':
                    f = f + b'\0'
                elif mode == 'empty':
                    f = b''
                m = hs(20, f) + bytes.fromhex(x[3] if len(x) > 3 else '')
                for c in chunks(m, x[2] if len(x) > 2 else None):
                    out += peer.seal(22, c) if x[0] == 'fin' else rec(22, c)
            elif x[0] == 'enc':
                out += peer.seal(x[1], bytes.fromhex(x[2]), x[3] if len(x) > 3 else None)
            elif x[0] == 'encn':
                out += peer.seal(x[1], (bytes(range(256)) * 80)[:x[2]])
        # what the client must make of it: first the plaintext part, then from ChangeCipherSpec on
        stream = flight1 + out
        a1, _ = model_reader_until(stream, exp)
        if fail is None:
            kind, pos = a1
            if kind == 'C':
                a2, _ = model_reader(stream[pos:], ('K', peer.sk), peer.siv, nmax=400)
                a = a2[0]
                if a.startswith('H:') and not a.startswith('H:!') and bytes.fromhex(a[2:])[0] == 20:
                    if bytes.fromhex(a[2:])[4:] == good_fin:
                        established = True
                        events = a2[1:]
                    else:
                        fail = ({'DecryptError'}, 'wrong Finished')
                elif a in ('E', ) or a.startswith('H:!'):
                    fail = (None, 'malformed message in place of Finished')
                elif a.startswith('E:'):
                    fail = ({a[2:]}, a)
                elif a.startswith('A:'):
                    fail = ({'AlertReceived'}, 'alert in place of Finished')
                else:
                    fail = ({'UnexpectedMessage'}, '%s in place of Finished' % a[:20])
            elif kind == 'E' or kind.startswith('H:!'):
                fail = (None, 'malformed message in place of ChangeCipherSpec')
            elif kind.startswith('E:'):
                fail = ({kind[2:]}, kind)
            elif kind.startswith('A:'):
                fail = ({'UnexpectedMessage', 'AlertReceived'}, 'alert in place of ChangeCipherSpec')
            else:
                fail = ({'UnexpectedMessage'}, '%s in place of ChangeCipherSpec' % kind[:20])
        s.send(out)
    err = s.finish()
    # ---------------------------------------------------------- outcome
    pan = [l for l in err if l.startswith('PANIC')]
    if pan:
        v('C16 C19' if not any(l.startswith('new ok') for l in err) else 'C18 C19', 'the client panics: ' + pan[0][:200])
        return V, 'panic'
    if not err or err[-1] != 'end':
        v('*', 'the client process dies: %s' % err[-1:])
        return V, 'dead'
    new = next((l for l in err if l.startswith('new')), 'none')
    while True:
        try:
            r = s.next_rec(1)
        except Hang:
            r = None
        if r is None:
            break
        trail.append(r)
    left = s.out[s.pos:]
    if bad or cr is None and not outfail:
        return V, new
    # transport faults inside the handshake: whatever happened before them, nothing follows
    if infail and not established and new != 'new ok' or outfail and new != 'new ok':
        if outfail and len(s.out) > int(opts['outfail']):
            v('C19', 'after a transport write failure the client sends %d more bytes' % (len(s.out) - int(opts['outfail'])))
        if infail and new == 'new err IoFailure' and (trail or left):
            v('C19', 'after a transport read failure the client sends a type %d record' % (trail[0][0] if trail else left[0]))
        return V, new
    if established and new == 'none':
        new = 'none'
    if new == 'new ok' and not established:
        v('C16', 'handshake reported complete although: %s' % (fail[1] if fail else '?'))
        return V, new
    if new != 'new ok':
        if established and not infail:
            v('C16 C17', 'a correct server is refused: ' + new)
            return V, new
        kind = new.split()[-1]
        if fail and fail[0] is not None and kind not in fail[0]:
            v('C19', '%s is reported as %s' % (fail[1], kind))
        if kind == 'IoFailure':
            if fail and (fail[0] is None or 'IoFailure' not in fail[0]):
                v('C19', '%s is reported as a transport failure' % fail[1])
            if trail or left:
                v('C19', 'data is sent after a transport failure')
        else:
            if left or len(trail) != 1 or trail[0][0] != 21 or trail[0][1] != (3, 3):
                v('C19', '%s: the client sends %s instead of one alert' % (fail[1] if fail else kind, [(t[0], len(t[2])) for t in trail] + [left.hex()] * bool(left)))
            else:
                b = trail[0][2]
                if got_ccs:
                    b = peer.open(21, (3, 3), b)
                if b is None or len(b) != 2 or b[0] != 2 or b[1] != KIND_ALERT.get(kind):
                    v('C19', '%s reported as %s, alert sent is %s' % (fail[1] if fail else '?', kind, b.hex() if b is not None else 'unreadable'))
        return V, new
    # ---------------------------------------------------------- application phase
    V += app_phase(s, sc, peer, events, trail, left, err)
    return V, new


def model_reader_until(stream, exp):
    """the message after the given leading handshake messages: (answer, position after it)"""
    # the position is that after the record holding it, which for 'C' is exact
    ans, _ = model_reader(stream, nmax=len(exp) + 1)
    if len(ans) <= len(exp):
        return ('E:IoFailure', len(stream)), None
    a = ans[len(exp)]
    pos = 0
    if a == 'C':
        # find the ChangeCipherSpec record: the first type-20 record
        p = 0
        while stream[p] != 20:
            p += 5 + struct.unpack('>H', stream[p + 3:p + 5])[0]
        pos = p + 6
    return (a, pos), None


def app_phase(s, sc, peer, events, trail, left, err):
    V = []
    opts = sc['opts']
    ops = [o for o in opts.get('ops', '').split(',') if o]
    lines = err[err.index('new ok') + 1:]
    # --- outgoing
    sent = b''
    alerts = []
    n_alert_after = 0
    for ty, ver, body in trail:
        p = peer.open(ty, ver, body)
        if p is None:
            V.append(('C10', 'outgoing record does not decrypt'))
            V.append(('C19', 'outgoing record does not decrypt'))
            V.append(('C11', 'outgoing record does not decrypt under its sequence number'))
            return V
        if ty == 23:
            sent += p
            if alerts:
                pass
        elif ty == 21:
            alerts.append(p)
        else:
            V.append(('C19', 'a type %d record is sent in the application phase' % ty))
    want = b''
    want_alerts = []
    limit = None
    i = 0
    failed = False
    # --- incoming: where the first short read may come ...
    firstfail = None
    acc = 0
    for e in events:
        if e.startswith('D:'):
            acc += len(e[2:]) // 2 if e != 'D:.' else 0
        else:
            firstfail = acc
            break
    if firstfail is None:
        firstfail = acc
    # ... and what may be delivered at all
    P = b''
    fin = next(i for i, x in enumerate(sc['flight2']) if x[0] == 'fin')
    x = sc['flight2'][fin]
    sn = cn = len(chunks(hs(20, bytes(12)) + bytes.fromhex(x[3] if len(x) > 3 else ''), x[2] if len(x) > 2 else None))
    for x in sc['flight2'][fin + 1:]:
        if x[0] == 'raw':
            continue
        b = bytes.fromhex(x[2]) if x[0] == 'enc' else (bytes(range(256)) * 80)[:x[2]]
        bad = x[3] if x[0] == 'enc' and len(x) > 3 else None
        used = {'seq+1': sn + 1, 'seq-1': sn - 1 if sn else 5, None: sn}.get(bad, None)
        sn += 1
        if used != cn or len(b) > 16384:
            continue
        cn += 1
        if x[1] == 23:
            P += b
        elif x[1] == 21 and len(b) >= 2 and b[1] == 0 and b[0] in (1, 2):
            break
    got = b''
    short = False
    for o in ops:
        k, x = o[0], o[1:]
        if k in 'fu':
            if k == 'f':
                limit = int(x)
            continue
        if i >= len(lines):
            V.append(('C18', 'no answer for operation ' + o))
            break
        l = lines[i]
        i += 1
        if k == 'r':
            n = int(x)
            p = l.split()
            if p[1] == 'err':
                c, b = 0, b'\x77' * n
                if n == 0:
                    V.append(('C18', 'an empty read fails'))
            else:
                c, b = int(p[1]), (bytes.fromhex(p[2]) if p[2] != '.' else b'')
            if c > n or len(b) != n or b[c:] != b'\x77' * (n - c):
                V.append(('C18', 'read of %d bytes reports %d and leaves %s' % (n, c, b[c:][:20].hex())))
                break
            got += b[:c]
            if not short and 'infail' not in opts:
                w = min(n, firstfail - (len(got) - c))
                if c != w:
                    V.append(('C18', 'read of %d bytes returns %d instead of %d before the stream ends or fails' % (n, c, w)))
                    break
            if c < n:
                short = True
            if got != P[:len(got)]:
                V.append(('C18', 'delivered bytes are not a prefix of the authenticated data (at byte %d of %d)' % (next((q for q in range(len(got)) if got[q:q + 1] != P[q:q + 1]), -1), len(got))))
                break
        elif k in 'wW':
            d = bytes.fromhex(x)
            if failed:
                continue
            if limit is not None and d:
                # the transport fails once after `limit` more bytes
                full = sum(5 + 16 + len(d[q:q + 16384]) for q in range(0, len(d), 16384))
                if limit < full:
                    if l != 'w err':
                        V.append(('C19', 'a write whose transport fails reports %s' % l))
                    failed = True
                    continue
                limit -= full
            if l != ('w ok %d' % len(d) if k == 'w' else 'w ok -'):
                V.append(('C19', 'write of %d bytes reports %s' % (len(d), l)))
            want += d
        elif k == 'c':
            if not failed:
                want_alerts.append(b'\0')
                if l != 'c ok':
                    V.append(('C19', 'close reports ' + l))
        elif k == 'F':
            if l != 'f ok':
                V.append(('C19', 'flush reports ' + l))
    if failed:
        # partial data of the failed write may be there; no alert
        if sent[:len(want)] != want:
            V.append(('C19', 'bytes sent differ from the bytes written'))
        if [a[1:] for a in alerts] != want_alerts or len(left) > 20000:
            V.append(('C19', 'an alert is sent after a transport failure'))
    else:
        if sent != want or left:
            V.append(('C19', 'bytes sent (%d) are not the bytes written (%d)' % (len(sent), len(want))))
        if [a[1:] for a in alerts] != want_alerts or any(len(a) != 2 or a[0] not in (1, 2) for a in alerts):
            V.append(('C19', 'alerts sent: %s instead of %d close-notify' % ([a.hex() for a in alerts], len(want_alerts))))
    return V


def point(b):
    if len(b) != 65 or b[0] != 4:
        return None
    x, y = int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big')
    if x >= ref.P or y >= ref.P or not ref.on_curve(x, y):
        return None
    return x, y


def check_ske(b):
    e = expect_item('EcdheServerKeyExchange', b)
    if e is None or e[0] != len(b):
        return False, None
    if b[:3] != b'\x03\0\x17':
        return False, None
    pt = point(b[4:4 + b[3]])
    return pt is not None, pt


# ------------------------------------------------------------------ scenarios
def server_hello(sr, sid=b'', suite=b'\xcc\xa8', comp=b'\0', ver=b'\x03\x03', ext=None):
    return hs(2, ver + sr + bytes([len(sid)]) + sid + suite + comp + (b'' if ext is None else struct.pack('>H', len(ext)) + ext))


def certs(r):
    l = b''.join(len(c).to_bytes(3, 'big') + c for c in [rb(r, r.choice((1, 3, 200))) for _ in range(r.choice((0, 1, 1, 2)))])
    return hs(11, len(l).to_bytes(3, 'big') + l)


def good_msgs(r, d, sr):
    sid = rb(r, r.choice((0, 0, 32, 1)))
    ext = r.choice((None, b'', b'\xff\x01\0\x01\0', b'\0\x0b\0\x02\x01\0', b'\0\x17\0\0'))
    pt = ref.pt_enc(ref.pt_mul(d, ref.G))
    if r.random() < .05 and False:
        pass
    k = ske(pt, sig=rb(r, r.choice((0, 4, 256))), hashalg=r.choice((4, 2)), sigalg=r.choice((1, 3)))
    return [server_hello(sr, sid, ext=ext), certs(r), hs(12, k), hs(14, b'')]


def records(r, msgs, ty=22):
    b = b''.join(msgs)
    mode = r.choice(('per', 'per', 'one', 'small', 'rand'))
    if mode == 'per':
        return b''.join(rec(ty, m) for m in msgs)
    if mode == 'one':
        return rec(ty, b)
    out = b''
    while b:
        n = r.randrange(1, 9 if mode == 'small' else 120)
        out += rec(ty, b[:n])
        b = b[n:]
    return out


def base(r):
    sr = rb(r, 32)
    d = r.choice((1, 2, ref.N - 1, r.randrange(1, ref.N), r.randrange(1, ref.N)))
    sc = {'srandom': sr.hex(), 'd': d, 'opts': {'rand': rb(r, 32 + 32 * 3).hex()}, 'flight2': [['ccs'], ['fin', 'good']]}
    if r.random() < .3:
        sc['opts']['sizes'] = ','.join(str(r.choice((1, 2, 3, 7, 100, 5000))) for _ in range(r.randrange(1, 4)))
    if r.random() < .2:
        sc['opts']['intr'] = r.choice((1, 2, 5))
    if r.random() < .2:
        sc['opts']['step'] = r.choice((1, 3, 10))
    return sc, good_msgs(r, d, sr), sr


def with_msgs(r, sc, msgs):
    sc['flight1'] = records(r, msgs).hex()
    return sc


def good(r):
    sc, m, sr = base(r)
    sc['flight2'] = [['ccs'], ['fin', 'good', r.choice((None, None, [1], [3, 5], [4, 12], [15]))]]
    return with_msgs(r, sc, m)


def bad_handshake(r):
    sc, m, sr = base(r)
    k = r.randrange(22)
    if k == 0:
        m[0] = server_hello(sr, ver=r.choice((b'\x03\x02', b'\x03\x01', b'\x03\x00', b'\x03\x04', b'\x02\x03', b'\x04\x03', b'\xfe\xfd')))
    elif k == 1:
        m[0] = server_hello(sr, suite=r.choice((b'\xcc\xa9', b'\xcc\x13', b'\0\0', b'\0\xff', b'\xcd\xa8', b'\xa8\xcc', b'\xc0\x2f')))
    elif k == 2:
        m[0] = server_hello(sr, comp=r.choice((b'\x01', b'\x02', b'\x40', b'\xff')))
    elif k == 3:
        del m[r.randrange(4)]
    elif k == 4:
        i = r.randrange(4)
        m.insert(i, m[i])
    elif k == 5:
        i = r.randrange(3)
        m[i], m[i + 1] = m[i + 1], m[i]
    elif k == 6:
        m.insert(r.randrange(5), r.choice((hs(0, b''), hs(13, b'\x01\x01\0\x02\x04\x01\0\0'), hs(20, bytes(12)), hs(15, b'abc'), hs(16, b'\x01a'), hs(99, b''), hs(4, b''), hs(1, b''))))
    elif k == 7:
        i = r.randrange(4)
        m[i] = fixlen('Handshake', mutate('Handshake', m[i], r))
    elif k == 8:
        i = r.randrange(4)
        b = m[i][4:]
        m[i] = hs(m[i][0], b[:r.randrange(len(b) + 1)] if b else b'x')
    elif k == 9:
        i = r.randrange(4)
        m[i] = hs(m[i][0], m[i][4:] + rb(r, r.choice((1, 2, 4))))
    elif k == 10:
        f = b''.join(m)
        sc['flight1'] = records(r, m).hex()
        b = bytes.fromhex(sc['flight1'])
        sc['flight1'] = b[:r.randrange(len(b))].hex()
        return sc
    elif k in (11, 12):
        # another record somewhere in the first flight
        rs = [rec(22, x) for x in m]
        rs.insert(r.randrange(len(rs) + 1), r.choice((rec(20, b'\x01'), rec(21, b'\x01\0'), rec(21, b'\x02\x28'), rec(21, b'\x01\x5a'), rec(23, b'hello'), rec(23, b''),
                                                       rec(22, b''), rec(24, b'\x01'), rec(21, b'\x02'), rec(20, b'\x02'), rec(22, bytes(16385)), b'\x16\x03\x03\x48\x01' + bytes(18433), rec(22, bytes(17000)))))
        sc['flight1'] = b''.join(rs).hex()
        return sc
    elif k == 13:
        pt = ref.pt_enc(ref.pt_mul(sc['d'], ref.G))
        m[2] = hs(12, r.choice((ske(pt, curve=24), ske(pt, curve=22), ske(pt, ctype=1), ske(pt, ctype=2), ske(b'\x02' + pt[1:33]), ske(pt[:-1] + bytes([pt[-1] ^ 1])),
                                ske(pt[:33] + pt[1:33]), ske(b'\0'), ske(b'\x04' + bytes(64)), ske(pt + b'\0'), ske(pt[:-1]), ske(pt) + b'\0', ske(pt, siglen=9),
                                ske(b'\x04' + (int.from_bytes(pt[1:33], 'big')).to_bytes(32, 'big') + b'\xff' * 32))))
    elif k == 14:
        sc['flight2'] = [['ccs'], ['fin', r.choice(['flip%d' % q for q in range(0, 96, 5)] + ['flip95', 'client', 'nofin', 'zero', 'perm0', 'perm10', 'xor', 'sum', 'short', 'long', 'empty'])]]
    elif k == 15:
        sc['flight2'] = r.choice(([['fin', 'good']], [['finplain', 'good']], [['finplain', 'good'], ['ccs']], [['ccs'], ['finplain', 'good']], [['ccs'], ['ccs'], ['fin', 'good']],
                                  [['raw', rec(20, b'\x02').hex()], ['fin', 'good']], [['raw', rec(20, b'\x01\x01').hex()], ['fin', 'good']],
                                  [['ccs'], ['enc', 20, '01'], ['fin', 'good']], [['raw', rec(20, b'').hex()], ['fin', 'good']]))
    elif k == 16:
        x = r.choice(([21, '0100'], [21, '0228'], [23, '6869'], [22, ''], [22, '00000000'], [22, '0e000000'], [20, '01'], [24, '00'], [22, hs(20, bytes(11)).hex()]))
        sc['flight2'] = [['ccs'], ['enc'] + x, ['fin', 'good']]
    elif k == 17:
        x = r.choice((rec(21, b'\x01\0'), rec(21, b'\x02\x28'), rec(23, b'hi'), rec(22, b''), rec(22, hs(0, b'')), rec(22, hs(14, b'')), rec(22, b'\x14\0\0'), rec(24, b''), rec(22, hs(20, bytes(12)))))
        sc['flight2'] = [['raw', x.hex()], ['ccs'], ['fin', 'good']]
    elif k == 18:
        # the Finished record is protected wrongly
        sc['flight2'] = [['ccs'], ['enc', 22, hs(20, bytes(12)).hex(), r.choice(BADSEAL)]]
    elif k == 19:
        # bytes of a further message pending when the keys change
        m.append(r.choice((b'\x14', b'\x14\0\0\x0c', b'\x14\0\0\x0c' + bytes(5), b'\0')))
        sc['flight1'] = rec(22, b''.join(m)).hex()
        sc['flight2'] = [['ccs'], r.choice((['fin', 'good'], ['enc', 22, '00000c' + '00' * 12]))]
        return sc
    elif k == 20:
        sc['flight2'] = r.choice(([['ccs']], [], [['raw', '1403030001']], [['ccs'], ['raw', '1603030020']], [['ccs'], ['encn', 22, 16385]], [['ccs'], ['encn', 22, 18000]]))
    elif k == 21:
        x = bytes.fromhex(with_msgs(r, sc, m)['flight1'])
        sc['opts']['infail'] = r.randrange(len(x) + 60)
        return sc
    return with_msgs(r, sc, m)


def outfail(r):
    sc, m, sr = base(r)
    sc['opts']['outfail'] = r.choice((0, 1, 5, 60, 80, 90, 100, 150, 160, 165, 166, 170, 180, 200, r.randrange(0, 230)))
    if r.random() < .4:
        m[r.randrange(4)] = hs(14, b'')
    return with_msgs(r, sc, m)


def app(r, big=False):
    sc, m, sr = base(r)
    with_msgs(r, sc, m)
    f = [['ccs'], ['fin', 'good']]
    tot = 0
    if r.random() < .05:
        f[1] = ['fin', 'good', None, r.choice(('00', '00000000', '14'))]
    for _ in range(r.randrange(0, 7)):
        k = r.random()
        n = r.choice((0, 1, 2, 5, 16, 100, 100, 16384 if big else 30))
        if k < .72:
            f.append(['enc', 23, rb(r, n).hex()])
            tot += n
        elif k < .78:
            f.append(['enc', 21, r.choice(('0100', '0200'))])
        elif k < .84:
            f.append(['enc', 21, r.choice(('0228', '015a', '01', '0328', '', '0300', '0201', '0164'))])
        elif k < .88:
            f.append(['enc', 22, r.choice(('00000000', '', '0e000000', '14', '1400000c' + '00' * 12))])
        elif k < .9:
            f.append(['enc', 20, r.choice(('01', '', '0101'))])
        elif k < .96:
            f.append(['enc', 23, rb(r, n).hex(), r.choice(BADSEAL)])
        elif k < .98:
            f.append(['raw', rec(23, rb(r, 5)).hex()])
        else:
            f.append(['encn', 23, r.choice((16385, 16384, 18432))])
    sc['flight2'] = f
    ops = []
    rmode = r.choice((0, 1, 2))
    for _ in range(r.randrange(1, 10)):
        k = r.random()
        if k < .6:
            n = r.choice(((1, 2, 3, 7, 10), (0, 1, 16, 50, 200), (100, 1000, 20000 if big else 300)))[rmode] if False else r.choice(((1, 2, 3, 7, 10), (0, 1, 16, 50, 200), (100, 1000, 20000 if big else 300))[rmode])
            ops.append('r%d' % n)
        elif k < .8:
            ops.append(r.choice('wW') + rb(r, r.choice((0, 1, 5, 100, 16384 if big else 60, 16385 if big else 61, 40000 if big else 2))).hex())
        elif k < .85:
            ops.append('F')
        elif k < .9:
            ops.append('c')
    if r.random() < .15:
        ops.append('f%d' % r.choice((0, 1, 5, 20, 30)))
        ops.append('w' + rb(r, r.choice((30, 60))).hex())
        ops.append('r%d' % 10)
    ops += ['r5', 'r1']
    sc['opts']['ops'] = ','.join(ops)
    if r.random() < .1:
        sc['opts']['infail'] = len(bytes.fromhex(sc['flight1'])) + 6 + 37 + r.randrange(1, 60)
    return sc


def edge_bytes(r):
    """32 bytes with a peculiar end, start or middle"""
    b = bytearray(rb(r, 32))
    k = r.randrange(8)
    n = r.choice((1, 1, 1, 2, 4, 31, 32))
    x = r.choice((0, 0, 0, 255, 128, 1))
    if k < 3:
        b[:n] = bytes([x]) * n
    elif k < 6:
        b[32 - n:] = bytes([x]) * n
    elif k == 6:
        i = r.randrange(32)
        b[i:i + 1] = bytes([x])
    else:
        b = bytearray(r.choice((bytes(32), b'\xff' * 32, bytes(range(32)), b'\0\xff' * 16)))
    return bytes(b)


def cert_list(r, sizes):
    l = b''.join(n.to_bytes(3, 'big') + rb(r, n) for n in sizes)
    return hs(11, len(l).to_bytes(3, 'big') + l)


def pack_records(msgs, size):
    b = b''.join(msgs)
    return b''.join(rec(22, b[i:i + size]) for i in range(0, len(b), size))


def sys_good(r, few=False):
    """correct servers of every kind"""
    cert_sizes = [[], [1], [0x80], [255], [256], [1, 1], [300, 300, 300], [5] * 20, [16000], [16384], [20000], [66000], [40000, 40000], [1500, 1500]]
    for cs in cert_sizes:
        for size in (16384, 5000) if not few else (16384,):
            sc, m, sr = base(r)
            m[1] = cert_list(r, cs)
            sc['flight1'] = pack_records(m, size).hex()
            yield sc
    for i in range(40):
        sc, m, sr = base(r)
        sr = edge_bytes(r)
        cr = edge_bytes(r)
        sc['srandom'] = sr.hex()
        m = good_msgs(r, sc['d'], sr)
        e = r.choice(EDGE_X + EDGE_Y)
        c = r.choice((1, 2, e, r.randrange(1, ref.N), r.randrange(1, ref.N)))
        if i % 2 == 0:
            # the shared point has unusual coordinates
            d = e * pow(c, -1, ref.N) % ref.N
            sc['d'] = d
            m = good_msgs(r, d, sr)
        sc['opts']['rand'] = (cr + c.to_bytes(32, 'little') + rb(r, 64)).hex()
        yield with_msgs(r, sc, m)
    for n in range(0, 33):
        sc, m, sr = base(r)
        m[0] = server_hello(sr, rb(r, n), ext=r.choice((None, b'', b'\xff\x01\0\x01\0')))
        yield with_msgs(r, sc, m)
    for n in (0, 1, 2, 128, 255, 256, 257, 512, 5000, 16000, 60000):
        sc, m, sr = base(r)
        m[2] = hs(12, ske(ref.pt_enc(ref.pt_mul(sc['d'], ref.G)), sig=rb(r, n), hashalg=r.randrange(7), sigalg=r.randrange(4)))
        sc['flight1'] = pack_records(m, r.choice((16384, 3000))).hex()
        yield sc
    for cut in (None, [1], [2], [3], [4], [5], [12], [15], [3, 1, 12], [4, 12], [8, 8]):
        sc, m, sr = base(r)
        sc['flight2'] = [['ccs'], ['fin', 'good', cut]]
        yield with_msgs(r, sc, m)
    # every two-way split of the first flight's first messages, and message boundaries inside records
    for size in (1, 2, 3, 4, 5, 39, 42, 43, 64, 100):
        sc, m, sr = base(r)
        sc['flight1'] = pack_records(m, size).hex()
        yield sc


OTHER_HS = [0, 1, 2, 4, 11, 12, 13, 14, 15, 16, 20, 21, 22, 23, 24, 99, 255]


def sys_bad(r):
    """one deviation of each kind at each place"""
    for ty in OTHER_HS:
        for pos in range(5):
            sc, m, sr = base(r)
            full = {0: b'', 13: b'\x01\x01\0\x02\x04\x01\0\0', 20: bytes(12), 16: b'\x01a', 14: b''}.get(ty, b'')
            x = next((q for q in m if q[0] == ty), None) or hs(ty, full)
            if ty in (2, 11, 12) and r.random() < .3:
                x = hs(ty, b'')
            m.insert(pos, x)
            yield with_msgs(r, sc, m)
            sc, m, sr = base(r)
            sc['flight2'] = [['raw', rec(22, x).hex()], ['ccs'], ['fin', 'good']] if pos == 0 else [['ccs'], ['enc', 22, x.hex()], ['fin', 'good']]
            if pos < 2:
                yield with_msgs(r, sc, m)
    for lev, desc in [(l, d) for l in (1, 2) for d in sorted(ALERTS)] + [(0, 0), (3, 40), (1, 255), (2, 1)]:
        a = bytes([lev, desc])
        for pos in ([r.randrange(5)] if desc not in (0, 40, 90, 100, 112) else range(5)):
            sc, m, sr = base(r)
            rs = [rec(22, x) for x in m]
            rs.insert(pos, rec(21, a))
            sc['flight1'] = b''.join(rs).hex()
            yield sc
        for f in ([['raw', rec(21, a).hex()], ['ccs'], ['fin', 'good']], [['ccs'], ['enc', 21, a.hex()], ['fin', 'good']],
                  [['ccs'], ['raw', rec(21, a).hex()], ['fin', 'good']]):
            sc, m, sr = base(r)
            sc['flight2'] = f
            yield with_msgs(r, sc, m)
    for k in range(96):
        sc, m, sr = base(r)
        sc['flight2'] = [['ccs'], ['fin', 'flip%d' % k, r.choice((None, None, [4, 12]))]]
        yield with_msgs(r, sc, m)
    for mode in ['perm%d' % q for q in range(11)] + ['client', 'nofin', 'zero', 'xor', 'sum', 'short', 'long', 'empty']:
        sc, m, sr = base(r)
        sc['flight2'] = [['ccs'], ['fin', mode]]
        yield with_msgs(r, sc, m)
    for b in BADSEAL:
        for body in (hs(20, bytes(12)), b'', b'\x14'):
            sc, m, sr = base(r)
            sc['flight2'] = [['ccs'], ['enc', 22, body.hex(), b]]
            yield with_msgs(r, sc, m)
    for v in [(3, x) for x in (0, 1, 2, 4, 5, 255)] + [(2, 3), (4, 3), (0, 0), (254, 253), (3, 0x13), (0x83, 3)]:
        sc, m, sr = base(r)
        m[0] = server_hello(sr, rb(r, r.choice((0, 32))), ver=bytes(v))
        yield with_msgs(r, sc, m)
    for v in (0x0000, 0xcca9, 0xcca7, 0xccaa, 0xcc00, 0x00a8, 0xcda8, 0xcba8, 0x4ca8, 0xcc28, 0xcc13, 0xc02f, 0x1301, 0xa8cc, 0x5600, 0x00ff, 0x002f):
        sc, m, sr = base(r)
        m[0] = server_hello(sr, suite=v.to_bytes(2, 'big'))
        yield with_msgs(r, sc, m)
    for c in (1, 2, 3, 64, 128, 255):
        sc, m, sr = base(r)
        m[0] = server_hello(sr, comp=bytes([c]))
        yield with_msgs(r, sc, m)
    for i in range(4):
        for act in ('drop', 'dup', 'swap', 'end', 'cut', 'more'):
            sc, m, sr = base(r)
            if act == 'drop':
                del m[i]
            elif act == 'dup':
                m.insert(i, m[i])
            elif act == 'swap' and i < 3:
                m[i], m[i + 1] = m[i + 1], m[i]
            elif act == 'end':
                del m[i:]
            elif act == 'cut':
                m[i] = m[i][:-1] if i < 3 else m[i][:3]
                del m[i + 1:]
            elif act == 'more':
                m[i] = hs(m[i][0], m[i][4:] + b'\0')
            yield with_msgs(r, sc, m)
    for x in (rec(20, b'\x01'), rec(23, b'x'), rec(23, b''), rec(22, b''), rec(24, b'\1'), rec(0, b''), rec(25, b'a'), rec(21, b'\x02'), rec(21, b''), rec(20, b''), rec(20, b'\x02'),
              rec(20, b'\x01\x01'), rec(22, bytes(16385)), b'\x16\x03\x03\x48\x01' + bytes(18433), b'\x80\x2e\x01\x03\x01'):
        for pos in range(5):
            sc, m, sr = base(r)
            rs = [rec(22, q) for q in m]
            rs.insert(pos, x)
            sc['flight1'] = b''.join(rs).hex()
            yield sc
        sc, m, sr = base(r)
        sc['flight2'] = [['raw', x.hex()], ['ccs'], ['fin', 'good']]
        yield with_msgs(r, sc, m)
        sc, m, sr = base(r)
        sc['flight2'] = [['ccs'], ['raw', x.hex()], ['fin', 'good']]
        yield with_msgs(r, sc, m)
    # data, and further messages, under the keys before the Finished
    for ty, b in ((23, b'hi'), (23, b''), (22, b''), (20, b'\x01'), (22, hs(0, b'')), (22, hs(20, bytes(12))), (24, b'x')):
        sc, m, sr = base(r)
        sc['flight2'] = [['ccs'], ['enc', ty, b.hex()], ['fin', 'good']]
        yield with_msgs(r, sc, m)


def sys_app(r, big=False):
    """record lengths, read lengths and ends, combined"""
    ends = [[], [['enc', 21, '0100']], [['enc', 21, '0200']], [['enc', 21, '0228']], [['enc', 21, '015a']], [['enc', 23, 'aabb', 'flip0']], [['enc', 22, '00000000']],
            [['enc', 20, '01']], [['raw', rec(23, b'hello').hex()]], [['enc', 23, 'aabbcc', 'seq-1']], [['enc', 23, '11' * 20, 'cut16']]]
    lens = [[1], [5], [16], [3, 4], [1, 1, 1], [0, 5], [5, 0], [5, 0, 0, 3], [0, 0, 0], [2, 7, 1], [10, 20, 30], [0, 1, 0, 2, 0, 3], []]
    for i, ls in enumerate(lens):
        tot = sum(ls)
        for reads in ([tot], [tot + 1], [max(0, tot - 1), 1, 1], [1] * (tot + 2), [2] * (tot // 2 + 2), [0, tot, 0, 1], [3, 0, tot], [tot + 100, 1], [tot - 1 if tot else 0, 2]):
            sc, m, sr = base(r)
            with_msgs(r, sc, m)
            f = [['ccs'], ['fin', 'good']]
            for n in ls:
                f.append(['enc', 23, rb(r, n).hex()])
            end = ends[r.randrange(len(ends))]
            sc['flight2'] = f + end + ([['enc', 23, 'ddeeff']] if end and r.random() < .5 else [])
            sc['opts']['ops'] = ','.join('r%d' % n for n in reads[:80])
            yield sc
    for end in ends:
        for ops in ('r5,r1', 'r4,r1,r1', 'r6,wabcd,r1', 'r3,r3', 'r1,r1,r1,r1,r1,r1,r1', 'r0,r5,r0,r1', 'wabcd,r5,c,r1,c', 'r5,r3,r3,wab', 'r5,c,r1'):
            sc, m, sr = base(r)
            with_msgs(r, sc, m)
            sc['flight2'] = [['ccs'], ['fin', 'good'], ['enc', 23, rb(r, 5).hex()]] + end + [['enc', 23, rb(r, 4).hex()]]
            sc['opts']['ops'] = ops
            yield sc
    for n in (16384, 16383, 16385, 32768, 32769, 1, 0, 65536, 50000) if big else (16384, 16385):
        sc, m, sr = base(r)
        with_msgs(r, sc, m)
        sc['flight2'] = [['ccs'], ['fin', 'good'], ['encn', 23, min(n, 16384)], ['enc', 23, rb(r, 3).hex()]]
        sc['opts']['ops'] = 'w%s,r%d,r1,W%s,r3,c' % (rb(r, n).hex(), min(n, 16384) - 1 if n else 1, rb(r, n).hex())
        yield sc
    for n in range(0, 45):
        sc, m, sr = base(r)
        with_msgs(r, sc, m)
        sc['opts']['ops'] = 'wabcd,f%d,w%s,r1,r1' % (n, rb(r, 20).hex())
        yield sc


def sys_outfail(r):
    for n in list(range(0, 8)) + list(range(60, 90, 3)) + list(range(90, 240, 2)):
        sc, m, sr = base(r)
        sc['opts']['outfail'] = n
        yield with_msgs(r, sc, m)
    for n in (62, 63, 64, 65, 66, 67, 68, 69, 70, 75, 80):
        sc, m, sr = base(r)
        sc['opts']['outfail'] = n
        m[r.randrange(3)] = hs(14, b'')
        yield with_msgs(r, sc, m)


def systematic(prop, r):
    if prop == 'C16':
        yield from sys_bad(r)
        yield from sys_good(r, few=True)
    elif prop == 'C17':
        yield from sys_good(r)
    elif prop == 'C18':
        yield from sys_app(r)
    elif prop == 'C19':
        yield from sys_bad(r)
        yield from sys_outfail(r)
        yield from sys_app(r, big=True)


def scenarios(prop, r, deep):
    # the random ones first: they find most things at once
    yield from sampled(prop, r, False)
    yield from systematic(prop, r)
    if deep:
        yield from sampled(prop, r, True)
        for _ in range(3):
            yield from systematic(prop, r)


def random_bytes(r):
    """what the random source delivers is of every kind"""
    import oracle_crypto
    sc, m, sr = base(r)
    cr = r.choice((edge_bytes(r), rb(r, 32), rb(r, 31) + b'\0', b'\0' + rb(r, 31), bytes(32), b'\xff' * 32))
    sc['opts']['rand'] = (cr + oracle_crypto.key_blocks(r)[0]).hex()
    return with_msgs(r, sc, m)


def sampled(prop, r, deep):
    mult = 12 if deep else 1
    if prop == 'C22':
        for i in range(60 * mult):
            yield random_bytes(r)
            if i % 10 == 5:
                yield bad_handshake(r)
    if prop == 'C16':
        for _ in range(260 * mult):
            yield bad_handshake(r)
            if r.random() < .25:
                yield good(r)
    elif prop == 'C17':
        for _ in range(90 * mult):
            yield good(r) if r.random() < .7 else app(r)
    elif prop == 'C18':
        for i in range(220 * mult):
            yield app(r, big=i % 12 == 0)
    elif prop == 'C19':
        for i in range(120 * mult):
            yield bad_handshake(r)
            if i % 2 == 0:
                yield app(r, big=i % 20 == 0)
            if i % 3 == 0:
                yield outfail(r)


WORKERS = 6


def run(exe, prop, gen, deadline, stop_first=True):
    pool = multiprocessing.get_context('fork').Pool(WORKERS)
    try:
        return _collect(pool, exe, prop, gen, deadline, stop_first)
    finally:
        pool.terminate()
        pool.join()


def _one(x):
    return x[1], run_scenario(*x)


def _collect(pool, exe, prop, gen, deadline, stop_first):
    fails, n, seen, samples, notes = [], 0, set(), [], {}
    to = False

    def feed():
        for sc in gen:
            if time.time() > deadline:
                return
            yield exe, sc
    it = pool.imap(_one, feed())
    while True:
        try:
            sc, (V, note) = it.next(timeout=max(1, deadline + 40 - time.time()))
        except StopIteration:
            break
        except multiprocessing.TimeoutError:
            to = True
            break
        if time.time() > deadline:
            to = True
        n += 1
        seen.add(json.dumps(sc, sort_keys=True))
        notes[note] = notes.get(note, 0) + 1
        if len(samples) < 2 and n % 17 == 1:
            samples.append({'flight2': str(sc['flight2'])[:200], 'opts': {k: str(x)[:80] for k, x in sc['opts'].items()}, 'outcome': note})
        mine = [t for p, t in V if p in (prop, '*')]
        if mine:
            fails.append({'scenario': sc, 'why': mine[0], 'all': V})
            if stop_first:
                break
    return {'n': n, 'distinct': len(seen), 'fails': fails, 'samples': samples, 'timed_out': to, 'outcomes': notes}
