property = 'C08'
needs = 'a public point with x = 0'
breaks = 'the curve equation is not checked for points with x = 0'
edits = [('src/crypto/p256.rs', '        if zero_if_same.0 != 0 {', '        if (zero_if_same & x.compare(&int256::ZERO)).0 != 0 {')]
demo = r'''
use husk::crypto::p256::NPoint256;
fn main() {
    for y in 0..256usize {
        let mut b = vec![0u8; 65];
        b[0] = 4;
        b[64] = y as u8;
        assert!(NPoint256::from_uncompressed_bytes(&b).is_none());
    }
}
'''
