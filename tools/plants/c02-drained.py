property = 'C02'
needs = 'an empty read while bytes of a block are still buffered, followed by another read'
breaks = 'reading zero bytes throws the buffered rest of the current block away'
edits = [('src/cipher/prf.rs', '''                if buflen <= size {
                    mem::replace''', '''                if buflen <= size || size == 0 {
                    mem::replace'''),
         ('src/cipher/prf.rs', '''            };
        }

        ret
    }''', '''            };
        }

        ret.truncate(size);
        ret
    }''')]
demo = r'''
use husk::cipher::prf::Prf;
fn main() {
    let all = Prf::new(vec![1, 2, 3], vec![9; 20]).get_bytes(100);
    let mut p = Prf::new(vec![1, 2, 3], vec![9; 20]);
    let mut got = p.get_bytes(40);
    got.extend(p.get_bytes(0));
    got.extend(p.get_bytes(60));
    assert_eq!(got, all);
}
'''
