property = 'C22'
needs = 'a block from the random source whose lowest word is zero'
breaks = 'a zero word is replaced by a constant'
rand = True
edits = [('src/cipher/ecdhe.rs', """                    x.v[i] = W(rng.next_u32());
""", """                    x.v[i] = W(rng.next_u32());
                    if i == 0 && x.v[0] == W(0) {
                        // never zero
                        x.v[0] = W(1);
                    }
""")]
demo = r'''
use husk::cipher::{ecdhe::EllipticDiffieHellman, KeyExchange};
use husk::crypto::p256::{int256, G};
fn share(rnd: &[u8]) -> Vec<u8> {
    script(rnd);
    let mut m = vec![3, 0, 23, 65];
    m.extend(G.normalize().to_uncompressed_bytes());
    m.extend_from_slice(&[4, 1, 0, 1, 7]);
    EllipticDiffieHellman.compute_keys(&m, &mut rand::rngs::OsRng).unwrap().0[1..].to_vec()
}
fn of(d: &[u8]) -> Vec<u8> {
    let mut x = int256::ZERO;
    for i in 0..8 { x.v[i].0 = u32::from_le_bytes([d[4 * i], d[4 * i + 1], d[4 * i + 2], d[4 * i + 3]]); }
    G.mult_scalar(&x).normalize().to_uncompressed_bytes()
}

fn main() {
    for z in 0..8 {
        let mut d: Vec<u8> = (1..33).collect();
        for j in 0..4 { d[4 * z + j] = 0; }
        assert_eq!(share(&[d.clone(), vec![9; 64]].concat()), of(&d));
    }
}
'''
