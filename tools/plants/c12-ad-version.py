property = 'C12'
needs = 'a protected record whose version field was altered on the way'
breaks = 'the version in the associated data is not the one in the record header'
edits = [('src/tls.rs', '                ad.push(content_type as u8); // TLSCompressed.type\n                ad.push(major);', '                ad.push(content_type as u8); // TLSCompressed.type\n                ad.push(TLS_VERSION.0);')]
demo = r'''
use husk::cipher::{chacha20_poly1305::ChaCha20Poly1305, Aead};
use husk::tls::TlsReader;
fn rec(k: u64, ty: u8, maj: u8, data: &[u8]) -> Vec<u8> {
    let mut n = vec![0; 4];
    n.extend_from_slice(&k.to_be_bytes());
    let mut ad = k.to_be_bytes().to_vec();
    ad.extend_from_slice(&[ty, 3, 3, (data.len() >> 8) as u8, data.len() as u8]);
    let b = ChaCha20Poly1305.new_encryptor(vec![4; 32]).encrypt(&n, data, &ad);
    let mut r = vec![ty, maj, 3, (b.len() >> 8) as u8, b.len() as u8];
    r.extend(b);
    r
}
fn reader(s: &[u8]) -> TlsReader<&[u8]> {
    let mut r = TlsReader::new(s);
    r.set_decryptor(ChaCha20Poly1305.new_decryptor(vec![4; 32]));
    r
}

fn main() {
    let s = rec(0, 23, 3, b"hello");
    assert!(reader(&s).read_message().is_ok());
    let s = rec(0, 23, 2, b"hello");
    assert!(reader(&s).read_message().is_err());
}
'''
