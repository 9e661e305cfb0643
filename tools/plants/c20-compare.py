property = 'C20'
needs = 'secrets that differ only in bits 2 or 6'
breaks = 'the comparison misses differences confined to two bit positions'
edits = [('src/util.rs', 'diff = diff | (diff >> 2);', 'diff = diff | (diff >> 3);')]
demo = r'''
fn main() {
    for i in 0..16 { for b in 0..8 {
        let mut x = [0x5au8; 16];
        x[i] ^= 1 << b;
        assert!(!husk::util::crypto_compare(&x, &[0x5a; 16]));
    } }
}
'''
