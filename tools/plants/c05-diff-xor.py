property = 'C05'
needs = 'a tag with an even number of equal byte differences'
breaks = 'differences of the computed and the received tag cancel out, so some forged tags open'
edits = [('src/cipher/chacha20_poly1305.rs', '            diff |= mac_computed[i] ^ mac_expected[i];', '            diff ^= mac_computed[i] ^ mac_expected[i];')]
demo = r'''
use husk::cipher::{chacha20_poly1305::ChaCha20Poly1305, Aead};
fn main() {
    let a = ChaCha20Poly1305;
    let s = a.new_encryptor(vec![1; 32]).encrypt(&[2; 12], b"some data", &[3; 13]);
    let n = s.len();
    for i in 0..16 { for j in 0..i { for d in &[1u8, 0x80, 0xff] {
        let mut t = s.clone();
        t[n - 16 + i] ^= d;
        t[n - 16 + j] ^= d;
        assert!(a.new_decryptor(vec![1; 32]).decrypt(&[2; 12], &t, &[3; 13]).is_err());
    } } }
}
'''
