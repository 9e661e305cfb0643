property = 'C01'
needs = 'a message of length 55 mod 64: only there does the 0x80 byte and the length end exactly at the block boundary'
breaks = 'the padding is one block too long for these lengths, so the digest is wrong'
edits = [('src/crypto/sha2.rs', '''    let padding_len = ((64 - 8 - 1 as u64).wrapping_sub(len as u64)) & 63;
''', '''    // distance to the next multiple of the block size, the length field excluded
    let padding_len = 64 - (len as u64 + 8 + 1) % 64;
''')]
demo = r'''
use husk::crypto::sha2::sha256;
fn main() {
    // SHA-256 of 55 and 119 zero bytes
    let h: String = sha256(&[0u8; 55]).iter().map(|b| format!("{:02x}", b)).collect();
    assert_eq!(h, "02779466cdec163811d078815c633f21901413081449002f24aa3e80f0b88ef7");
}
'''
