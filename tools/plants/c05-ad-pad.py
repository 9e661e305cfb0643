property = 'C05'
needs = 'associated data whose length is not 13 modulo 16'
breaks = 'associated data is padded as if it always had the TLS 1.2 length'
edits = [('src/cipher/chacha20_poly1305.rs', '    msg.extend(ad);\n    let padding_len = 16 - (ad.len() % 16);\n    if padding_len != 16 {\n        msg.extend(iter::repeat(0).take(padding_len));\n    }\n', '    // the additional data of a TLS 1.2 record has 13 bytes\n    msg.extend(ad);\n    msg.extend(iter::repeat(0).take(16 - 13));\n')]
demo = r'''
use husk::cipher::{chacha20_poly1305::ChaCha20Poly1305, Aead};
fn main() {
    // RFC 7539, 2.8.2
    let key: Vec<u8> = (0x80..0xa0).collect();
    let mut nonce = vec![7, 0, 0, 0];
    nonce.extend(0x40..0x48u8);
    let ad = [0x50, 0x51, 0x52, 0x53, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7];
    let p = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.";
    let s = ChaCha20Poly1305.new_encryptor(key).encrypt(&nonce, p, &ad);
    assert_eq!(&s[s.len() - 16..], &[0x1a, 0xe1, 0x0b, 0x59, 0x4f, 0x09, 0xe2, 0x6a, 0x7e, 0x90, 0x2e, 0xcb, 0xd0, 0x60, 0x06, 0x91]);
}
'''
