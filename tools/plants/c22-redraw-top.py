property = 'C22'
needs = 'a first block from the random source that is out of range (one of 2^32)'
breaks = 'only the most significant word is drawn again, so the key is biased'
rand = True
edits = [('src/cipher/ecdhe.rs', """            loop {
                let mut x = p256::int256::ZERO;
                for i in 0..8 {
                    x.v[i] = W(rng.next_u32());
                }
""", """            let mut x = p256::int256::ZERO;
            let mut from = 0;
            loop {
                for i in from..8 {
                    x.v[i] = W(rng.next_u32());
                }
                from = 7;
""")]
demo = r'''
use husk::cipher::{ecdhe::EllipticDiffieHellman, KeyExchange};
use husk::crypto::p256::{int256, G};
fn share(rnd: &[u8]) -> Vec<u8> {
    script(rnd);
    let mut m = vec![3, 0, 23, 65];
    m.extend(G.normalize().to_uncompressed_bytes());
    m.extend_from_slice(&[4, 1, 0, 1, 7]);
    EllipticDiffieHellman.compute_keys(&m, &mut rand::rngs::OsRng).unwrap().0[1..].to_vec()
}
fn of(d: &[u8]) -> Vec<u8> {
    let mut x = int256::ZERO;
    for i in 0..8 { x.v[i].0 = u32::from_le_bytes([d[4 * i], d[4 * i + 1], d[4 * i + 2], d[4 * i + 3]]); }
    G.mult_scalar(&x).normalize().to_uncompressed_bytes()
}

fn main() {
    let good: Vec<u8> = (1..33).collect();
    assert_eq!(share(&[good.clone(), vec![9; 64]].concat()), of(&good));
    assert_eq!(share(&[vec![255; 32], good.clone(), vec![9; 64]].concat()), of(&good));
}
'''
