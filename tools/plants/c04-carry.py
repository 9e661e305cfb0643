property = 'C04'
needs = 'an accumulator whose second limb is exactly 2^26 after the last block'
breaks = 'the final carry out of the second limb is dropped'
edits = [('src/crypto/poly1305.rs', '''        let mut c: u32;
        c = h1 >> 26;
        h1 &= 0x3ff_ffff;
        h2 += c;
''', '''        let mut c: u32;
        h1 &= 0x3ff_ffff;
''')]
demo = r'''
fn main() {
    let mut r = [0u8; 16];
    r[0] = 1;
    let mut m = vec![0u8; 64];
    for i in 0..6 { m[i] = 255; }
    m[6] = 15;
    // 2^52 - 1 + 4 * 2^128, mod 2^130 - 5: 2^52 + 4
    let mut want = [0u8; 16];
    want[0] = 4;
    want[6] = 16;
    assert_eq!(husk::crypto::poly1305::authenticate(&m, &r, &[0; 16]), want);
}
'''
