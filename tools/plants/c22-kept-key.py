property = 'C22'
needs = 'a second key exchange in the same process'
breaks = 'the ephemeral key of the first key exchange is used for all later ones'
rand = True
edits = [('src/cipher/ecdhe.rs', """        let x = get_random_x(rng);
""", """        // generating a key is slow: keep it
        static KEY: std::sync::Mutex<Option<[u32; 8]>> = std::sync::Mutex::new(None);
        let mut kept = KEY.lock().unwrap_or_else(|e| e.into_inner());
        let mut x = p256::int256::ZERO;
        match *kept {
            Some(ref v) => {
                for i in 0..8 {
                    x.v[i] = W(v[i]);
                }
            }
            None => {
                x = get_random_x(rng);
                let mut v = [0u32; 8];
                for i in 0..8 {
                    v[i] = x.v[i].0;
                }
                *kept = Some(v);
            }
        }
        drop(kept);
""")]
demo = r'''
use husk::cipher::{ecdhe::EllipticDiffieHellman, KeyExchange};
use husk::crypto::p256::{int256, G};
fn share(rnd: &[u8]) -> Vec<u8> {
    script(rnd);
    let mut m = vec![3, 0, 23, 65];
    m.extend(G.normalize().to_uncompressed_bytes());
    m.extend_from_slice(&[4, 1, 0, 1, 7]);
    EllipticDiffieHellman.compute_keys(&m, &mut rand::rngs::OsRng).unwrap().0[1..].to_vec()
}
fn of(d: &[u8]) -> Vec<u8> {
    let mut x = int256::ZERO;
    for i in 0..8 { x.v[i].0 = u32::from_le_bytes([d[4 * i], d[4 * i + 1], d[4 * i + 2], d[4 * i + 3]]); }
    G.mult_scalar(&x).normalize().to_uncompressed_bytes()
}

fn main() {
    for k in 1..4u8 {
        let d: Vec<u8> = (k..k + 32).collect();
        assert_eq!(share(&[d.clone(), vec![9; 64]].concat()), of(&d));
    }
}
'''
