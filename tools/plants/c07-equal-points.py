property = 'C07'
needs = 'an addition of equal points, as the last step for the scalar n + 2'
breaks = 'the sum of two equal points is taken for infinity'
edits = [('src/crypto/p256.rs', '        let ret = Point256::choose(xdiff_nonzero | ydiff_nonzero, &double, &ret);\n', ''), ('src/crypto/p256.rs', '        // if self == b, return self.double() since ret is (0, 0, 0)\n        let double = self.double();\n', '')]
demo = r'''
use husk::crypto::p256::{G, N};
use husk::crypto::p256::int256::ONE;
fn main() {
    let mut two = ONE; two.v[0].0 = 2;
    let mut k = N; k.v[0].0 += 2;
    let a = G.mult_scalar(&two).normalize();
    let b = G.mult_scalar(&k).normalize();
    assert_eq!(a.x.compare(&b.x).0 | a.y.compare(&b.y).0, 0);
}
'''
