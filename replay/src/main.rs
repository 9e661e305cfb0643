//! Replay probe: runs the real code of /repo on concrete inputs.
//! `probe batch`   : one command per stdin line, one answer per stdout line.
//! `probe session` : one TLS client over stdin/stdout, outcome on stderr.
#![allow(non_snake_case)]
use husk::cipher::{Aead, Decryptor, Encryptor};
use husk::crypto::p256::int256::Int256;
use husk::crypto::p256::{self, NPoint256, Point256};
use husk::tls_item::TlsItem;
use husk::util::{ReadExt, WriteExt};
use std::io::{self, Cursor, Read, Write};
use std::panic;
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------ randomness
static RAND: Mutex<Option<(Vec<u8>, usize)>> = Mutex::new(None);

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod sys {
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        let r: i64;
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
            in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
        if r < 0 && r > -4096 {
            *__errno_location() = -r as i32;
            return -1;
        }
        r
    }
    unsafe fn feed(buf: i64, len: i64) -> bool {
        if let Ok(mut g) = super::RAND.try_lock() {
            if let Some((v, pos)) = g.as_mut() {
                for i in 0..len {
                    // an exhausted script continues with a counter pattern
                    let x = if *pos < v.len() { v[*pos] } else { (*pos as u32).wrapping_mul(0x9E3779B1).to_be_bytes()[0] };
                    *(buf as *mut u8).offset(i as isize) = x;
                    *pos += 1;
                }
                return true;
            }
        }
        false
    }
    #[no_mangle]
    pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        if n == 318 && b > 0 && feed(a, b) {
            return b;
        }
        raw(n, a, b, c, d, e, f)
    }
    #[no_mangle]
    pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
        if len > 0 && feed(buf as i64, len as i64) {
            return len as isize;
        }
        raw(318, buf as i64, len as i64, flags as i64, 0, 0, 0) as isize
    }
}
fn set_rand(h: &str) {
    *RAND.lock().unwrap() = if h == "-" { None } else { Some((unhex(h), 0)) };
}

// ------------------------------------------------------------ hex
fn unhex(s: &str) -> Vec<u8> {
    if s == "-" || s == "." {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return ".".into();
    }
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
fn a16(v: &[u8]) -> [u8; 16] {
    let mut a = [0u8; 16];
    a.copy_from_slice(v);
    a
}

// ------------------------------------------------------------ P-256
fn fe(h: &str) -> Int256 {
    let b = unhex(h);
    let mut x = p256::int256::ZERO;
    for i in 0..8 {
        let mut v = 0u32;
        for j in 0..4 {
            v = (v << 8) | b[i * 4 + j] as u32;
        }
        x.v[7 - i].0 = v;
    }
    x
}
fn fex(x: &Int256) -> String {
    let mut s = String::new();
    for i in (0..8).rev() {
        s.push_str(&format!("{:08x}", x.v[i].0));
    }
    s
}
fn pt(x: &str, y: &str) -> Point256 {
    if x == "inf" {
        let z = p256::int256::ZERO;
        return p256::G.mult_scalar(&z);
    }
    NPoint256 { x: fe(x), y: fe(y) }.to_point()
}
fn npx(p: &NPoint256) -> String {
    format!("{} {}", fex(&p.x), fex(&p.y))
}

// ------------------------------------------------------------ transports
/// script: comma separated: <hex> data chunk (one read returns at most one chunk),
/// I = interrupted, E = error; after the end: EOF
struct Src {
    parts: Vec<(char, Vec<u8>)>,
    i: usize,
    off: usize,
    total: usize,
}
impl Src {
    fn new(s: &str) -> Src {
        let mut parts = vec![];
        if s != "-" {
            for p in s.split(',') {
                match p {
                    "I" => parts.push(('I', vec![])),
                    "E" => parts.push(('E', vec![])),
                    h => parts.push(('D', unhex(h))),
                }
            }
        }
        Src { parts, i: 0, off: 0, total: 0 }
    }
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        while self.i < self.parts.len() {
            let (k, d) = &self.parts[self.i];
            match k {
                'I' => {
                    self.i += 1;
                    return Err(io::Error::new(io::ErrorKind::Interrupted, "intr"));
                }
                'E' => {
                    return Err(io::Error::new(io::ErrorKind::ConnectionReset, "reset"));
                }
                _ => {
                    let n = std::cmp::min(buf.len(), d.len() - self.off);
                    if n == 0 {
                        self.i += 1;
                        self.off = 0;
                        continue;
                    }
                    buf[..n].copy_from_slice(&d[self.off..self.off + n]);
                    self.off += n;
                    self.total += n;
                    if self.off == d.len() {
                        self.i += 1;
                        self.off = 0;
                    }
                    return Ok(n);
                }
            }
        }
        Ok(0)
    }
}
/// sink that fails once `left` bytes were taken; at most `step` bytes per write
#[derive(Clone)]
struct Sink(Arc<Mutex<SinkState>>);
struct SinkState {
    out: Vec<u8>,
    left: Option<usize>,
    step: usize,
    intr: bool,
}
impl Sink {
    fn new() -> Sink {
        Sink(Arc::new(Mutex::new(SinkState { out: vec![], left: None, step: usize::MAX, intr: false })))
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut s = self.0.lock().unwrap();
        if s.intr {
            s.intr = false;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "intr"));
        }
        let mut n = std::cmp::min(b.len(), s.step);
        if let Some(l) = s.left {
            if l == 0 && !b.is_empty() {
                return Err(io::Error::new(io::ErrorKind::BrokenPipe, "full"));
            }
            n = std::cmp::min(n, l);
            s.left = Some(l - n);
        }
        s.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ------------------------------------------------------------ recording cipher
struct Rec {
    log: Arc<Mutex<Vec<String>>>,
    inner: Option<Box<dyn Encryptor + Send>>,
    grow: usize,
}
impl Encryptor for Rec {
    fn encrypt(&mut self, nonce: &[u8], plain: &[u8], ad: &[u8]) -> Vec<u8> {
        self.log.lock().unwrap().push(format!("{}:{}:{}", hex(nonce), hex(ad), hex(plain)));
        match self.inner.as_mut() {
            Some(e) => e.encrypt(nonce, plain, ad),
            None => {
                let mut v: Vec<u8> = plain.iter().map(|x| x ^ 0xa5).collect();
                v.extend(vec![0xEEu8; self.grow]);
                v
            }
        }
    }
}
struct RecD {
    log: Arc<Mutex<Vec<String>>>,
    inner: Option<Box<dyn Decryptor + Send>>,
    mac: usize,
    grow: usize,
}
impl Decryptor for RecD {
    fn decrypt(&mut self, nonce: &[u8], enc: &[u8], ad: &[u8]) -> husk::tls_result::TlsResult<Vec<u8>> {
        self.log.lock().unwrap().push(format!("{}:{}:{}", hex(nonce), hex(ad), hex(enc)));
        match self.inner.as_mut() {
            Some(e) => e.decrypt(nonce, enc, ad),
            None => {
                let mut v = enc[..enc.len() - self.mac].to_vec();
                v.extend(vec![0xEEu8; self.grow]);
                Ok(v)
            }
        }
    }
    fn mac_len(&self) -> usize {
        match self.inner.as_ref() {
            Some(e) => e.mac_len(),
            None => self.mac,
        }
    }
}

fn ek(e: &husk::tls_result::TlsError) -> String {
    format!("{:?}", e.kind)
}
fn ct(n: &str) -> husk::tls::ContentType {
    use husk::tls::ContentType::*;
    match n {
        "20" => ChangeCipherSpecTy,
        "21" => AlertTy,
        "22" => HandshakeTy,
        _ => ApplicationDataTy,
    }
}

// ------------------------------------------------------------ items
trait Dump {
    fn dump(&self) -> String;
}
macro_rules! dump_enc { ($($t:ty),*) => { $(impl Dump for $t { fn dump(&self) -> String { enc(self) } })* } }
fn enc<T: TlsItem>(x: &T) -> String {
    let mut v = vec![];
    match x.tls_write(&mut v) {
        Ok(()) => hex(&v),
        Err(e) => format!("!{}", ek(&e)),
    }
}
use husk::alert::*;
use husk::cipher::ecdhe::*;
use husk::cipher::CipherSuite;
use husk::handshake::*;
use husk::signature::{DigitallySigned, Signature};
use husk::tls_item::{DummyItem, ObscureData};
dump_enc!(u8, u16, u32, u64, Random, CipherSuite, CipherSuiteVec, CompressionMethodVec, SessionId, Asn1Cert,
    EllipticCurveList, ECPointFormatList, ExtensionVec, CertificateList, CertificiateTypeVec, DistinguishedName,
    DistinguishedNameVec, VerifyData, SignatureAndHashAlgorithmVec, Signature, EcData, DummyItem, ObscureData);
macro_rules! dump_num { ($($t:ty),*) => { $(impl Dump for $t { fn dump(&self) -> String { format!("#{}", *self as u64) } })* } }
dump_num!(CompressionMethod, NamedCurve, ECPointFormat, ClientCertificateType, HashAlgorithm, SignatureAlgorithm, AlertLevel, AlertDescription);
macro_rules! dump_struct { ($($t:ty { $($f:ident),* })*) => { $(impl Dump for $t { fn dump(&self) -> String {
    let v: Vec<String> = vec![$(format!("{}={}", stringify!($f), self.$f.dump())),*]; format!("({})", v.join(";")) } })* } }
dump_struct! {
    ProtocolVersion { major, minor }
    SignatureAndHashAlgorithm { hash, signature }
    DigitallySigned { algorithm, signature }
    Alert { level, description }
    EcCurve { a, b }
    ServerEcdhParams { curve_params, public }
    EcdheServerKeyExchange { params, signed_params }
    ClientHello { client_version, random, session_id, cipher_suites, compression_methods, extensions }
    ServerHello { server_version, random, session_id, cipher_suite, compression_method, extensions }
    CertificateRequest { certificate_types, supported_signature_algorithms, certificate_authorities }
}
impl Dump for EcParameters {
    fn dump(&self) -> String {
        #[allow(unreachable_patterns)]
        match self {
            EcParameters::named_curve(c) => format!("nc({})", c.dump()),
            _ => "other".into(),
        }
    }
}
impl Dump for Option<ExtensionVec> {
    fn dump(&self) -> String {
        match self {
            None => "none".into(),
            Some(x) => format!("some({})", x.dump()),
        }
    }
}
impl Dump for Extension {
    fn dump(&self) -> String {
        match self {
            Extension::elliptic_curves(x) => format!("ec({})", x.dump()),
            Extension::ec_point_formats(x) => format!("pf({})", x.dump()),
            Extension::signature_algorithms(x) => format!("sa({})", x.dump()),
            Extension::Unknown(t, d) => format!("unk({};{})", t, hex(d)),
            #[allow(unreachable_patterns)]
            _ => "other".into(),
        }
    }
}
impl Dump for Handshake {
    fn dump(&self) -> String {
        match self {
            Handshake::hello_request(_) => "hello_request".into(),
            Handshake::client_hello(x) => format!("client_hello{}", x.dump()),
            Handshake::server_hello(x) => format!("server_hello{}", x.dump()),
            Handshake::certificate(x) => format!("certificate({})", x.dump()),
            Handshake::server_key_exchange(x) => format!("server_key_exchange({})", x.dump()),
            Handshake::certificate_request(x) => format!("certificate_request{}", x.dump()),
            Handshake::server_hello_done(_) => "server_hello_done".into(),
            Handshake::client_key_exchange(x) => format!("client_key_exchange({})", x.dump()),
            Handshake::finished(x) => format!("finished({})", x.dump()),
            #[allow(unreachable_patterns)]
            _ => "other".into(),
        }
    }
}
fn item<T: TlsItem + Dump>(src: &str) -> String {
    let total: usize = src.split(',').filter(|p| *p != "I" && *p != "E" && *p != "-").map(|p| unhex(p).len()).sum();
    if src.contains(',') {
        let mut r = Src::new(src);
        return match T::tls_read(&mut r) {
            Ok(x) => format!("ok {} {} {} {}", r.total, enc(&x), x.tls_size(), x.dump()),
            Err(e) => format!("err {}", ek(&e)),
        };
    }
    let b = unhex(src);
    let mut r = Cursor::new(b);
    let _ = total;
    match T::tls_read(&mut r) {
        Ok(x) => format!("ok {} {} {} {}", r.position(), enc(&x), x.tls_size(), x.dump()),
        Err(e) => format!("err {}", ek(&e)),
    }
}
macro_rules! items { ($name:expr, $src:expr; $($s:literal $t:ty),*) => { match $name { $($s => item::<$t>($src),)* _ => "bad type".to_string() } } }
fn item_by_name(n: &str, src: &str) -> String {
    items!(n, src; "u8" u8, "u16" u16, "u32" u32, "u64" u64, "Random" Random, "CipherSuite" CipherSuite, "CipherSuiteVec" CipherSuiteVec,
        "CompressionMethod" CompressionMethod, "CompressionMethodVec" CompressionMethodVec, "ProtocolVersion" ProtocolVersion,
        "SessionId" SessionId, "Asn1Cert" Asn1Cert, "NamedCurve" NamedCurve, "EllipticCurveList" EllipticCurveList,
        "ECPointFormat" ECPointFormat, "ECPointFormatList" ECPointFormatList, "Extension" Extension, "ExtensionVec" ExtensionVec,
        "OptExtensionVec" Option<ExtensionVec>, "Handshake" Handshake, "ClientHello" ClientHello, "ServerHello" ServerHello,
        "CertificateList" CertificateList, "ClientCertificateType" ClientCertificateType, "CertificiateTypeVec" CertificiateTypeVec,
        "DistinguishedName" DistinguishedName, "DistinguishedNameVec" DistinguishedNameVec, "CertificateRequest" CertificateRequest,
        "VerifyData" VerifyData, "HashAlgorithm" HashAlgorithm, "SignatureAlgorithm" SignatureAlgorithm,
        "SignatureAndHashAlgorithm" SignatureAndHashAlgorithm, "SignatureAndHashAlgorithmVec" SignatureAndHashAlgorithmVec,
        "Signature" Signature, "DigitallySigned" DigitallySigned, "AlertLevel" AlertLevel, "AlertDescription" AlertDescription,
        "Alert" Alert, "EcData" EcData, "EcCurve" EcCurve, "EcParameters" EcParameters, "ServerEcdhParams" ServerEcdhParams,
        "EcdheServerKeyExchange" EcdheServerKeyExchange, "DummyItem" DummyItem, "ObscureData" ObscureData)
}
fn ctor(n: &str, k: usize) -> String {
    macro_rules! c { ($t:ident, $e:expr) => {{
        let v: Vec<_> = (0..k).map(|i| { let _ = i; $e(i) }).collect();
        match $t::new(v) { Ok(x) => { let mut w = vec![]; x.tls_write(&mut w).unwrap(); format!("ok {} {}", x.tls_size(), if w.len() > 4096 { format!("L{}", w.len()) } else { hex(&w) }) } Err(e) => format!("err {}", ek(&e)) }
    }}}
    let b = |i: usize| i as u8;
    match n {
        "Random" => c!(Random, b), "VerifyData" => c!(VerifyData, b), "SessionId" => c!(SessionId, b), "Asn1Cert" => c!(Asn1Cert, b),
        "DistinguishedName" => c!(DistinguishedName, b), "Signature" => c!(Signature, b), "EcData" => c!(EcData, b),
        "CipherSuiteVec" => c!(CipherSuiteVec, |_| CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256),
        "CompressionMethodVec" => c!(CompressionMethodVec, |_| CompressionMethod::null),
        "EllipticCurveList" => c!(EllipticCurveList, |_| NamedCurve::secp256r1),
        "ECPointFormatList" => c!(ECPointFormatList, |_| ECPointFormat::uncompressed),
        "ExtensionVec" => c!(ExtensionVec, |i| Extension::Unknown(i as u16, vec![])),
        "CertificateList" => c!(CertificateList, |i| Asn1Cert::new(vec![i as u8; 1000]).ok().unwrap()),
        "CertificiateTypeVec" => c!(CertificiateTypeVec, |_| ClientCertificateType::rsa_sign),
        "DistinguishedNameVec" => c!(DistinguishedNameVec, |i| DistinguishedName::new(vec![i as u8; 98]).ok().unwrap()),
        "SignatureAndHashAlgorithmVec" => c!(SignatureAndHashAlgorithmVec, |_| SignatureAndHashAlgorithm { hash: HashAlgorithm::sha256, signature: SignatureAlgorithm::rsa }),
        _ => "bad type".into(),
    }
}

fn msg_str(m: &husk::tls::Message) -> String {
    use husk::tls::Message::*;
    match m {
        HandshakeMessage(h) => format!("H:{}", enc(h)),
        ChangeCipherSpecMessage => "C".into(),
        AlertMessage(a) => format!("A:{}:{}", a.level as u8, a.description as u8),
        ApplicationDataMessage(d) => format!("D:{}", hex(d)),
        #[allow(unreachable_patterns)]
        _ => "other".into(),
    }
}

fn run(a: &[&str]) -> String {
    match a[0] {
        "sha256" => hex(&husk::crypto::sha2::sha256(&unhex(a[1]))),
        "sha256rep" => hex(&husk::crypto::sha2::sha256(&vec![unhex(a[1])[0]; a[2].parse().unwrap()])),
        "hmac" => hex(&husk::cipher::prf::hmac_sha256(&unhex(a[1]), &unhex(a[2]))),
        "prf" => {
            let mut p = husk::cipher::prf::Prf::new(unhex(a[1]), unhex(a[2]));
            let v: Vec<String> = a[3].split(',').map(|n| hex(&p.get_bytes(n.parse().unwrap()))).collect();
            v.join(" ")
        }
        "chacha" => {
            // key nonce ops: n | <hex>
            let mut c = husk::crypto::chacha20::ChaCha20::new(&unhex(a[1]), &unhex(a[2]));
            let v: Vec<String> = a[3].split(',').map(|o| if o == "n" { hex(&c.next()) } else { hex(&c.encrypt(&unhex(o))) }).collect();
            v.join(" ")
        }
        "chachaskip" => {
            let mut c = husk::crypto::chacha20::ChaCha20::new(&unhex(a[1]), &unhex(a[2]));
            for _ in 0..a[3].parse::<usize>().unwrap() {
                c.next();
            }
            let mut v = c.next().to_vec();
            v.extend(&c.next()[..]);
            hex(&v)
        }
        "poly" => hex(&husk::crypto::poly1305::authenticate(&unhex(a[3]), &a16(&unhex(a[1])), &a16(&unhex(a[2])))),
        "seal" => {
            let mut e = husk::cipher::chacha20_poly1305::ChaCha20Poly1305.new_encryptor(unhex(a[1]));
            hex(&e.encrypt(&unhex(a[2]), &unhex(a[4]), &unhex(a[3])))
        }
        "open" => {
            let mut d = husk::cipher::chacha20_poly1305::ChaCha20Poly1305.new_decryptor(unhex(a[1]));
            match d.decrypt(&unhex(a[2]), &unhex(a[4]), &unhex(a[3])) {
                Ok(p) => format!("ok {}", hex(&p)),
                Err(e) => format!("err {}", ek(&e)),
            }
        }
        "sizes" => {
            let s = husk::cipher::chacha20_poly1305::ChaCha20Poly1305;
            format!("{} {} {} {}", s.key_size(), s.fixed_iv_len(), s.mac_len(), s.new_decryptor(vec![0; 32]).mac_len())
        }
        "fe" => {
            let x = || fe(a[2]);
            let y = || fe(a[3]);
            match a[1] {
                "add" => fex(&x().add(&y())),
                "sub" => fex(&x().sub(&y())),
                "mult" => fex(&x().mult(&y())),
                "double" => fex(&x().double()),
                "square" => fex(&x().square()),
                "inverse" => fex(&x().inverse()),
                "half" => fex(&x().divide_by_2()),
                "cmp" => format!("{}", x().compare(&y()).0),
                "choose0" => fex(&Int256::choose(husk::crypto::wrapping::Wrapping(0), &x(), &y())),
                "choose1" => fex(&Int256::choose(husk::crypto::wrapping::Wrapping(1), &x(), &y())),
                "to_bytes" => hex(&x().to_bytes()),
                "from_bytes" => match Int256::from_bytes(&unhex(a[2])) {
                    Some(x) => fex(&x),
                    None => "none".into(),
                },
                "inverse_chain" => {
                    let i = x().inverse();
                    format!("{} {}", fex(&i), fex(&i.mult(&x())))
                }
                _ => "bad op".into(),
            }
        }
        // smul x y n1,n2,..  : successive multiplications (the second starts from a non-affine point)
        "smul" => {
            let mut p = pt(a[1], a[2]);
            for n in a[3].split(',') {
                p = p.mult_scalar(&fe(n));
            }
            npx(&p.normalize())
        }
        "ptdec" => match NPoint256::from_uncompressed_bytes(&unhex(a[1])) {
            Some(p) => format!("{} {}", npx(&p), hex(&p.to_uncompressed_bytes())),
            None => "none".into(),
        },
        "ptenc" => hex(&NPoint256 { x: fe(a[1]), y: fe(a[2]) }.to_uncompressed_bytes()),
        "kex" => {
            set_rand(a[2]);
            let k = CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256.new_kex();
            let r = k.compute_keys(&unhex(a[1]), &mut rand::rngs::OsRng);
            set_rand("-");
            match r {
                Ok((p, s)) => format!("ok {} {}", hex(&p), hex(&s)),
                Err(e) => format!("err {}", ek(&e)),
            }
        }
        "item" => item_by_name(a[1], a[2]),
        "ctor" => ctor(a[1], a[2].parse().unwrap()),
        "alertof" => {
            use husk::tls_result::{TlsError, TlsErrorKind::*};
            let k = match a[1] {
                "UnexpectedMessage" => UnexpectedMessage, "BadRecordMac" => BadRecordMac, "RecordOverflow" => RecordOverflow,
                "IllegalParameter" => IllegalParameter, "DecodeError" => DecodeError, "DecryptError" => DecryptError,
                "InternalError" => InternalError, "IoFailure" => IoFailure, _ => AlertReceived,
            };
            let e: TlsError = TlsError::new::<()>(k, String::new()).err().unwrap();
            Alert::from_tls_err(&e).dump()
        }
        "hsbuf" => {
            let mut b = HandshakeBuffer::new();
            let mut o = vec![];
            for p in a[1].split(',') {
                b.add_record(&unhex(p));
                loop {
                    match b.get_message() {
                        Ok(Some(m)) => o.push(format!("H:{}", enc(&m))),
                        Ok(None) => {
                            o.push(if b.is_empty() { "-".into() } else { "+".to_string() });
                            break;
                        }
                        Err(e) => {
                            o.push(format!("E:{}", ek(&e)));
                        }
                    }
                    if o.len() > 10000 { break; }
                }
            }
            o.join(" ")
        }
        // writer ops
        "writer" => {
            let sink = Sink::new();
            let log = Arc::new(Mutex::new(vec![]));
            let mut w = husk::tls::TlsWriter::new(sink.clone());
            let mut o = vec![];
            for op in a[1].split(',') {
                let (c, r) = op.split_at(1);
                let res = |r: husk::tls_result::TlsResult<()>| match r {
                    Ok(()) => "ok".to_string(),
                    Err(e) => format!("E:{}", ek(&e)),
                };
                match c {
                    "m" => w.set_encryptor(Box::new(Rec { log: log.clone(), inner: None, grow: r.parse().unwrap_or(16) })),
                    "K" => w.set_encryptor(Box::new(Rec { log: log.clone(), inner: Some(husk::cipher::chacha20_poly1305::ChaCha20Poly1305.new_encryptor(unhex(r))), grow: 0 })),
                    "i" => w.set_iv(unhex(r)),
                    "d" => { let (t, h) = r.split_at(2); o.push(res(w.write_data(ct(t), &unhex(h)))); }
                    "a" => o.push(res(w.write_application_data(&unhex(r)))),
                    "C" => o.push(res(w.write_change_cipher_spec())),
                    "A" => { let b = unhex(r); let al = Alert::tls_read(&mut &b[..]).ok().unwrap(); o.push(res(w.write_alert(&al))); }
                    "H" => { let b = unhex(r); let h = Handshake::tls_read(&mut &b[..]).ok().unwrap(); o.push(res(w.write_handshake(&h))); }
                    "f" => sink.0.lock().unwrap().left = Some(r.parse().unwrap()),
                    "u" => sink.0.lock().unwrap().left = None,
                    "s" => sink.0.lock().unwrap().step = r.parse().unwrap(),
                    "n" => sink.0.lock().unwrap().intr = true,
                    _ => return "bad op".into(),
                }
            }
            let s = sink.0.lock().unwrap();
            let l = log.lock().unwrap();
            format!("{} | {} | {}", o.join(" "), hex(&s.out), l.join(" "))
        }
        // reader cipher iv stream ops ; ops: m (message), k<hex> switch on key later, D read_application_data
        "reader" => {
            let log = Arc::new(Mutex::new(vec![]));
            let mut r = husk::tls::TlsReader::new(Src::new(a[1]));
            let mut o = vec![];
            for op in a[2].split(',') {
                let (c, x) = op.split_at(1);
                match c {
                    "m" => {
                        let n: usize = x.parse().unwrap_or(1);
                        for _ in 0..n {
                            match r.read_message() {
                                Ok(m) => o.push(msg_str(&m)),
                                Err(e) => {
                                    o.push(format!("E:{}", ek(&e)));
                                    break;
                                }
                            }
                        }
                    }
                    "D" => match r.read_application_data() {
                        Ok(d) => o.push(format!("D:{}", hex(&d))),
                        Err(e) => o.push(format!("E:{}", ek(&e))),
                    },
                    "h" => match r.read_handshake() {
                        Ok(d) => o.push(format!("H:{}", enc(&d))),
                        Err(e) => o.push(format!("E:{}", ek(&e))),
                    },
                    "c" => match r.read_change_cipher_spec() {
                        Ok(_) => o.push("C".into()),
                        Err(e) => o.push(format!("E:{}", ek(&e))),
                    },
                    "K" => r.set_decryptor(Box::new(RecD { log: log.clone(), inner: Some(husk::cipher::chacha20_poly1305::ChaCha20Poly1305.new_decryptor(unhex(x))), mac: 0, grow: 0 })),
                    "M" => {
                        let (m, g) = x.split_once(':').unwrap();
                        r.set_decryptor(Box::new(RecD { log: log.clone(), inner: None, mac: m.parse().unwrap(), grow: g.parse().unwrap() }))
                    }
                    "i" => r.set_iv(unhex(x)),
                    _ => return "bad op".into(),
                }
            }
            let t = r.get_mut().total;
            let l = log.lock().unwrap();
            format!("{} | {} | {}", o.join(" "), t, l.join(" "))
        }
        "fill" => {
            let mut s = Src::new(a[1]);
            let n: usize = a[2].parse().unwrap();
            let r = match a[3] {
                "v" => ReadExt::read_exact(&mut s, n).map(|v| hex(&v)),
                "f" => { let mut b = vec![0x77u8; n]; s.fill_exact(&mut b).map(|_| hex(&b)) }
                "u8" => s.read_u8().map(|x| format!("{}", x)),
                "be16" => s.read_be_u16().map(|x| format!("{}", x)),
                "le16" => s.read_le_u16().map(|x| format!("{}", x)),
                "be32" => s.read_be_u32().map(|x| format!("{}", x)),
                "le32" => s.read_le_u32().map(|x| format!("{}", x)),
                "be64" => s.read_be_u64().map(|x| format!("{}", x)),
                "le64" => s.read_le_u64().map(|x| format!("{}", x)),
                _ => return "bad op".into(),
            };
            match r {
                Ok(x) => format!("ok {} {}", x, s.total),
                Err(e) => format!("err {:?}", e.kind()),
            }
        }
        "wr" => {
            let x: u64 = a[2].parse().unwrap();
            let s = Sink::new();
            if a.len() > 3 { s.0.lock().unwrap().step = a[3].parse().unwrap(); }
            let mut v = s.clone();
            match a[1] {
                "u8" => v.write_u8(x as u8), "be16" => v.write_be_u16(x as u16), "le16" => v.write_le_u16(x as u16),
                "be32" => v.write_be_u32(x as u32), "le32" => v.write_le_u32(x as u32), "be64" => v.write_be_u64(x), _ => v.write_le_u64(x),
            }.unwrap();
            let g = s.0.lock().unwrap();
            hex(&g.out)
        }
        "arr" => {
            let x: u64 = a[2].parse().unwrap();
            use husk::util::*;
            match a[1] { "be64" => hex(&u64_be_array(x)), "le64" => hex(&u64_le_array(x)), "be32" => hex(&u32_be_array(x as u32)), _ => hex(&u32_le_array(x as u32)) }
        }
        "ccmp" => format!("{}", husk::util::crypto_compare(&unhex(a[1]), &unhex(a[2]))),
        _ => "bad command".into(),
    }
}

fn batch() {
    panic::set_hook(Box::new(|_| {}));
    let mut line = String::new();
    let stdin = io::stdin();
    let mut out = io::stdout();
    loop {
        line.clear();
        if stdin.read_line(&mut line).unwrap() == 0 {
            break;
        }
        let l = line.trim_end().to_string();
        let r = panic::catch_unwind(move || {
            let a: Vec<&str> = l.split(' ').collect();
            run(&a)
        });
        let s = match r {
            Ok(s) => s,
            Err(e) => {
                if let Ok(mut g) = RAND.lock() { *g = None; }
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("PANIC {}", m.replace('\n', " "))
            }
        };
        writeln!(out, "{}", s).unwrap();
        out.flush().unwrap();
    }
}

// ------------------------------------------------------------ session
struct In {
    sizes: Vec<usize>,
    i: usize,
    fail_after: Option<usize>,
    intr: usize,
}
impl Read for In {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.intr > 0 {
            self.i += 1;
            if self.i % (self.intr + 1) == 0 {
                return Err(io::Error::new(io::ErrorKind::Interrupted, "intr"));
            }
        }
        if let Some(0) = self.fail_after {
            return Err(io::Error::new(io::ErrorKind::ConnectionReset, "reset"));
        }
        let mut n = b.len();
        if !self.sizes.is_empty() {
            n = std::cmp::min(n, self.sizes[self.i % self.sizes.len()]);
            self.i += 1;
        }
        if let Some(k) = self.fail_after {
            n = std::cmp::min(n, k);
        }
        let r = io::stdin().lock().read(&mut b[..n])?;
        if let Some(k) = self.fail_after {
            self.fail_after = Some(k - r);
        }
        Ok(r)
    }
}
struct Out {
    fail_after: Arc<Mutex<Option<usize>>>,
    step: usize,
}
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut n = std::cmp::min(b.len(), self.step);
        let mut g = self.fail_after.lock().unwrap();
        if let Some(k) = *g {
            if k == 0 && n > 0 {
                // fails once: anything written later is seen by the peer
                *g = None;
                return Err(io::Error::new(io::ErrorKind::BrokenPipe, "full"));
            }
            n = std::cmp::min(n, k);
            *g = Some(k - n);
        }
        let mut o = io::stdout().lock();
        o.write_all(&b[..n])?;
        o.flush()?;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn session(a: &[String]) {
    // key=value arguments: rand= sizes= infail= outfail= step= intr= ops=
    let get = |k: &str| a.iter().find_map(|x| x.strip_prefix(&format!("{}=", k)).map(|s| s.to_string()));
    if let Some(r) = get("rand") {
        set_rand(&r);
    }
    let sizes = get("sizes").map(|s| s.split(',').map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let fa = Arc::new(Mutex::new(get("outfail").map(|s| s.parse().unwrap())));
    let i = In { sizes, i: 0, fail_after: get("infail").map(|s| s.parse().unwrap()), intr: get("intr").map(|s| s.parse().unwrap()).unwrap_or(0) };
    let o = Out { fail_after: fa.clone(), step: get("step").map(|s| s.parse().unwrap()).unwrap_or(usize::MAX) };
    panic::set_hook(Box::new(|_| {}));
    // ops=@path: from a file (the list can be longer than an argument may be)
    let ops = match get("ops").unwrap_or_default() {
        o if o.starts_with('@') => std::fs::read_to_string(&o[1..]).unwrap(),
        o => o,
    };
    let r = panic::catch_unwind(panic::AssertUnwindSafe(move || {
        let mut c = match husk::TlsClient::new(i, o, rand::rngs::OsRng) {
            Ok(c) => {
                eprintln!("new ok");
                c
            }
            Err(e) => {
                eprintln!("new err {}", ek(&e));
                return;
            }
        };
        for op in ops.split(',').filter(|x| !x.is_empty()) {
            let (k, x) = op.split_at(1);
            match k {
                "r" => {
                    let mut b = vec![0x77u8; x.parse().unwrap()];
                    match c.read(&mut b) {
                        Ok(n) => eprintln!("r {} {}", n, hex(&b)),
                        Err(e) => eprintln!("r err {:?}", e.kind()),
                    }
                }
                "w" => match c.write(&unhex(x)) {
                    Ok(n) => eprintln!("w ok {}", n),
                    Err(_) => eprintln!("w err"),
                },
                "W" => match c.write_all(&unhex(x)) {
                    Ok(()) => eprintln!("w ok -"),
                    Err(_) => eprintln!("w err"),
                },
                "F" => match c.flush() {
                    Ok(()) => eprintln!("f ok"),
                    Err(_) => eprintln!("f err"),
                },
                "c" => match c.close() {
                    Ok(()) => eprintln!("c ok"),
                    Err(e) => eprintln!("c err {}", ek(&e)),
                },
                "f" => *fa.lock().unwrap() = Some(x.parse().unwrap()),
                "u" => *fa.lock().unwrap() = None,
                _ => eprintln!("bad op"),
            }
        }
    }));
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        eprintln!("PANIC {}", m.replace('\n', " "));
    }
    eprintln!("end");
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("session") => session(&a[2..]),
        _ => batch(),
    }
}
