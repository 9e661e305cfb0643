property = 'C03'
needs = 'more than 65535 blocks (4 MiB) from one state'
breaks = 'the block counter wraps at 2^16'
edits = [('src/crypto/chacha20.rs', 'self.vals[12] += 1;', 'self.vals[12] = self.vals[12].wrapping_add(1) & 0xffff;')]
demo = r'''
use husk::crypto::chacha20::ChaCha20;
fn main() {
    let mut c = ChaCha20::new(&[7; 32], &[3; 12]);
    let first = c.next();
    let mut last = [0u8; 64];
    for _ in 0..65536u32 {
        last = c.next();
    }
    assert_ne!(&first[..], &last[..]);
}
'''
