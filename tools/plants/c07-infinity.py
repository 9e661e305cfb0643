property = 'C07'
needs = 'a scalar that is a multiple of the group order'
breaks = 'infinity normalizes to (1, 1) instead of (0, 0)'
edits = [('src/crypto/p256.rs', '        let z2 = self.z.square();\n        let z3 = self.z.mult(&z2);\n        let x = self.x.mult(&z2.inverse());\n        let y = self.y.mult(&z3.inverse());\n\n        NPoint256 { x: x, y: y }', '        if self.z.compare(&ZERO).0 == 0 {\n            return NPoint256 { x: INFTY.x, y: INFTY.y };\n        }\n        let z2 = self.z.square();\n        let z3 = self.z.mult(&z2);\n        let x = self.x.mult(&z2.inverse());\n        let y = self.y.mult(&z3.inverse());\n\n        NPoint256 { x: x, y: y }')]
demo = r'''
use husk::crypto::p256::{G, N};
use husk::crypto::p256::int256::ZERO;
fn main() {
    let a = G.mult_scalar(&N).normalize();
    assert_eq!(a.x.compare(&ZERO).0 | a.y.compare(&ZERO).0, 0);
}
'''
