property = 'C01'
needs = 'a message of at least three blocks whose chaining value exercises the seventh word'
breaks = 'the chaining value of the last word is taken from the block before the previous one from the third block on'
edits = [('src/crypto/sha2.rs', '''        let mut g = val[6];
''', '''        let mut g = if i > 1 { val[6] & !(1 << 31) } else { val[6] };
''')]
demo = r'''
use husk::crypto::sha2::sha256;
fn main() {
    // many three-block messages; one digest of the digests
    let mut acc = Vec::new();
    for i in 0..32u8 {
        acc.extend_from_slice(&sha256(&vec![i; 130])[..1]);
    }
    let h: String = acc.iter().map(|b| format!("{:02x}", b)).collect();
    assert_eq!(h, "@@");
}
'''
import hashlib
demo = demo.replace('@@', ''.join('%02x' % hashlib.sha256(bytes([i]) * 130).digest()[0] for i in range(32)))
