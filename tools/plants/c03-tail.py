property = 'C03'
needs = 'encryption of several whole and partial pieces from one state, the first ending on a block boundary'
breaks = 'data that is a multiple of 64 bytes uses one extra keystream block, so the next piece starts one block late'
edits = [('src/crypto/chacha20.rs', '''            ret.extend(xor_iter);
        }
''', '''            ret.extend(xor_iter);
        }
        if data.len() > 0 && data.len() % 64 == 0 {
            self.next();
        }
''')]
demo = r'''
use husk::crypto::chacha20::ChaCha20;
fn main() {
    let data: Vec<u8> = (0..200).collect();
    let whole = ChaCha20::new(&[7; 32], &[3; 12]).encrypt(&data);
    let mut c = ChaCha20::new(&[7; 32], &[3; 12]);
    let mut got = c.encrypt(&data[..128]);
    got.extend(c.encrypt(&data[128..]));
    assert_eq!(got, whole);
}
'''
