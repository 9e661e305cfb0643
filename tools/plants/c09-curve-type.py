property = 'C09'
needs = 'a server key exchange whose curve type byte is 0x83'
breaks = 'the top bit of the curve type is ignored'
edits = [('src/cipher/ecdhe.rs', '                let num = try_read_num!($repr_ty, reader);', '                let num = try_read_num!($repr_ty, reader) & 0x7f;')]
demo = r'''
use husk::cipher::{ecdhe::EllipticDiffieHellman, KeyExchange};
use husk::crypto::p256::G;
fn main() {
    for t in 0..=255u8 {
        let mut m = vec![t, 0, 23, 65];
        m.extend(G.normalize().to_uncompressed_bytes());
        m.extend_from_slice(&[4, 1, 0, 1, 7]);
        if t & 0x7f != 3 { continue; }
        assert_eq!(EllipticDiffieHellman.compute_keys(&m, &mut rand::rngs::OsRng).is_ok(), t == 3);
    }
}
'''
