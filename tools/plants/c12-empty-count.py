property = 'C12'
needs = 'an empty protected record before others'
breaks = 'empty records do not count, so the records after them are refused'
edits = [('src/tls.rs', '        self.read_count += 1;\n\n        Ok(record)', '        if !record.fragment.is_empty() {\n            self.read_count += 1;\n        }\n\n        Ok(record)')]
demo = r'''
use husk::cipher::{chacha20_poly1305::ChaCha20Poly1305, Aead};
use husk::tls::TlsReader;
fn rec(k: u64, ty: u8, maj: u8, data: &[u8]) -> Vec<u8> {
    let mut n = vec![0; 4];
    n.extend_from_slice(&k.to_be_bytes());
    let mut ad = k.to_be_bytes().to_vec();
    ad.extend_from_slice(&[ty, 3, 3, (data.len() >> 8) as u8, data.len() as u8]);
    let b = ChaCha20Poly1305.new_encryptor(vec![4; 32]).encrypt(&n, data, &ad);
    let mut r = vec![ty, maj, 3, (b.len() >> 8) as u8, b.len() as u8];
    r.extend(b);
    r
}
fn reader(s: &[u8]) -> TlsReader<&[u8]> {
    let mut r = TlsReader::new(s);
    r.set_decryptor(ChaCha20Poly1305.new_decryptor(vec![4; 32]));
    r
}

fn main() {
    let mut s = rec(0, 23, 3, b"");
    s.extend(rec(1, 23, 3, b"data"));
    let mut r = reader(&s);
    assert!(r.read_message().is_ok());
    assert!(r.read_message().is_ok());
}
'''
