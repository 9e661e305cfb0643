property = 'C06'
needs = 'operands that differ only in bit 4, 12, 20 or 28 of their limbs'
breaks = 'such operands compare equal'
edits = [('src/crypto/p256.rs', '            diff = diff | diff >> 4;\n            diff = diff | diff >> 2;', '            diff = diff | diff >> 5;\n            diff = diff | diff >> 2;')]
demo = r'''
use husk::crypto::p256::int256::{Int256, ZERO};
fn main() {
    for i in 0..256usize {
        let mut b = [0u8; 32];
        b[31 - i / 8] = 1 << (i % 8);
        let x = match Int256::from_bytes(&b) { Some(x) => x, None => continue };
        assert_eq!(x.compare(&ZERO).0, 1, "bit {}", i);
    }
}
'''
