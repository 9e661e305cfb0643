property = 'C01'
needs = 'a message of 2^29 bytes or more (bit length above 32 bits)'
breaks = 'the bit length is truncated to 32 bits, so the digest of very long messages is wrong'
edits = [('src/crypto/sha2.rs', '''    let bitlen = (len as u64) * 8; // FIXME: disallow `len >= 2^64 / 8`
''', '''    let bitlen = (len as u32).wrapping_mul(8) as u64; // FIXME: disallow `len >= 2^64 / 8`
''')]
demo = r'''
use husk::crypto::sha2::sha256;
use std::io::Write;
use std::process::{Command, Stdio};
fn main() {
    let n = (1usize << 29) + 3;
    let m = vec![0u8; n];
    let h: String = sha256(&m).iter().map(|b| format!("{:02x}", b)).collect();
    let mut p = Command::new("sha256sum").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
    p.stdin.take().unwrap().write_all(&m).unwrap();
    let o = String::from_utf8(p.wait_with_output().unwrap().stdout).unwrap();
    assert_eq!(&h[..], &o[..64]);
}
'''
