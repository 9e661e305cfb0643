property = 'C09'
needs = 'a shared secret whose x coordinate begins with a zero byte (1 of 256)'
breaks = 'leading zero bytes of the premaster secret are dropped'
edits = [('src/cipher/ecdhe.rs', '        let pre_master_secret = gxy.x.to_bytes();', '        let mut pre_master_secret = gxy.x.to_bytes();\n        while pre_master_secret.len() > 1 && pre_master_secret[0] == 0 {\n            pre_master_secret.remove(0);\n        }')]
demo = r'''
use husk::cipher::{ecdhe::EllipticDiffieHellman, KeyExchange};
use husk::crypto::p256::G;
fn main() {
    let q = G.normalize().to_uncompressed_bytes();
    let mut m = vec![3, 0, 23, 65];
    m.extend(q);
    m.extend_from_slice(&[4, 1, 0, 1, 7]);
    let hs: Vec<_> = (0..8).map(|_| { let m = m.clone(); std::thread::spawn(move || {
        for _ in 0..300 {
            let (_, s) = EllipticDiffieHellman.compute_keys(&m, &mut rand::rngs::OsRng).ok().unwrap();
            assert_eq!(s.len(), 32);
        }
    }) }).collect();
    for h in hs { h.join().unwrap(); }
}
'''
