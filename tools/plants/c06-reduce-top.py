property = 'C06'
needs = 'an operand whose upper limbs equal those of the prime and whose second limb is not all ones while the first is'
breaks = 'a fast comparison with the prime skips one limb, so some reduced values are reduced again'
edits = [('src/crypto/p256.rs', '            let choose_new = carry ^ carry_sub;\n            Int256::choose(choose_new, &v, self)', '            // self < P256, decided from the top limb down\n            let mut below = carry_sub;\n            for i in (0..LIMBS).filter(|i| *i != 1) {\n                if self.v[i].0 != P256.v[i].0 {\n                    below = W((self.v[i].0 < P256.v[i].0) as u32);\n                } else if i == 0 {\n                    below = W(0);\n                }\n            }\n            let choose_new = carry ^ below;\n            Int256::choose(choose_new, &v, self)')]
demo = r'''
use husk::crypto::p256::int256::{Int256, ZERO};
fn main() {
    // p - 2^32
    let mut b = [0xffu8; 32];
    b[4..20].copy_from_slice(&[0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    b[27] = 0xfe;
    let mut v = ZERO;
    for i in 0..8 { let k = 28 - 4 * i; v.v[i].0 = u32::from_be_bytes([b[k], b[k + 1], b[k + 2], b[k + 3]]); }
    let s = v.add(&ZERO);
    assert_eq!(s.compare(&v).0, 0);
    assert!(Int256::from_bytes(&b).is_some());
}
'''
