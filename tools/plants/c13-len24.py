property = 'C13'
needs = 'a handshake message of 64 KiB or more'
breaks = 'the top byte of the announced length is misplaced'
edits = [('src/handshake.rs', '        let wanted_len: usize = (n1 << 16) | (n2 << 8) | n3;', '        let wanted_len: usize = (n1 << 15) | (n2 << 8) | n3;')]
demo = r'''
use husk::tls::{Message, TlsReader};
fn main() {
    let n = 70000usize;
    let mut m = vec![12, (n >> 16) as u8, (n >> 8) as u8, n as u8];
    m.extend(vec![7; n]);
    let mut s = vec![];
    for c in m.chunks(16384) { s.extend_from_slice(&[22, 3, 3, (c.len() >> 8) as u8, c.len() as u8]); s.extend_from_slice(c); }
    match TlsReader::new(&s[..]).read_message() {
        Ok(Message::HandshakeMessage(husk::handshake::Handshake::server_key_exchange(d))) => assert_eq!(d.len(), n),
        _ => panic!(),
    }
}
'''
