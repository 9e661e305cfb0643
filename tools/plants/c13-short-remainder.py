property = 'C13'
needs = 'a record that ends one to three bytes into the header of the next handshake message'
breaks = 'the beginning of the next message is lost'
edits = [('src/handshake.rs', '            let remaining = remaining.to_vec();\n            (message, remaining)', '            // less than a header is left over: padding\n            let remaining = if remaining.len() < 4 { Vec::new() } else { remaining.to_vec() };\n            (message, remaining)')]
demo = r'''
use husk::tls::TlsReader;
fn main() {
    for cut in 1..12 {
        let m = [14, 0, 0, 0, 20, 0, 0, 12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 0, 0, 0];
        let mut s = vec![];
        for c in m.chunks(cut) { s.extend_from_slice(&[22, 3, 3, 0, c.len() as u8]); s.extend_from_slice(c); }
        let mut r = TlsReader::new(&s[..]);
        for _ in 0..3 { assert!(r.read_message().is_ok(), "cut {}", cut); }
    }
}
'''
