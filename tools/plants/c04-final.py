property = 'C04'
needs = 'an accumulator equal to 2^130 - 5 after the last block'
breaks = 'the accumulator is not reduced when it is exactly the modulus'
edits = [('src/crypto/poly1305.rs', 'h0.wrapping_add(5);', 'h0.wrapping_add(4);'), ('src/crypto/poly1305.rs', '''        g0 &= mask;
        g1''', '''        g0 = g0.wrapping_add(1) & mask;
        g1''')]
demo = r'''
fn main() {
    let mut r = [0u8; 16];
    r[0] = 1;
    let mut m = vec![0u8; 48];
    for i in 0..16 { m[i] = 255; }
    m[0] = 251;
    assert_eq!(husk::crypto::poly1305::authenticate(&m, &r, &[0; 16]), [0u8; 16]);
}
'''
