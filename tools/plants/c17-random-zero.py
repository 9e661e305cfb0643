property = 'C17'
needs = 'a client random that ends in a zero byte (1 of 256)'
breaks = 'a trailing zero byte of the client random is left out of the master secret seed'
server = True
edits = [('src/client.rs', '            let mut label_seed = b"master secret".to_vec();\n            label_seed.extend(&cli_random);', '            let mut label_seed = b"master secret".to_vec();\n            label_seed.extend(&cli_random);\n            if cli_random[31] == 0 {\n                label_seed.pop();\n            }')]
demo = r'''
fn main() {
    let hs: Vec<_> = (0..8).map(|_| std::thread::spawn(|| {
        for _ in 0..220 {
            let (s, c) = connect(Cfg::default());
            assert!(c.is_ok());
            assert!(s.borrow().errors.is_empty());
        }
    })).collect();
    for h in hs { h.join().unwrap(); }
}
'''
