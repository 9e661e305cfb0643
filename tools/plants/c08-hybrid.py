property = 'C08'
needs = 'a point encoding that begins with 05, 06 or 07'
breaks = 'other point formats are accepted as uncompressed points'
edits = [('src/crypto/p256.rs', '        if data[0] != 0x04 {', '        if data[0] >> 2 != 0x04 >> 2 {')]
demo = r'''
use husk::crypto::p256::{NPoint256, G};
fn main() {
    let g = G.normalize().to_uncompressed_bytes();
    assert!(NPoint256::from_uncompressed_bytes(&g).is_some());
    for t in 0..=255u8 {
        let mut b = g.clone();
        b[0] = t;
        assert_eq!(NPoint256::from_uncompressed_bytes(&b).is_some(), t == 4, "{}", t);
    }
}
'''
