property = 'C16'
needs = 'a server that sends HelloRequest in the middle of the handshake'
breaks = 'messages outside the prescribed order are skipped'
server = True
edits = [('src/tls.rs', '            HandshakeMessage(handshake) => Ok(handshake),', '            HandshakeMessage(Handshake::hello_request(_)) => self.read_handshake(),\n            HandshakeMessage(handshake) => Ok(handshake),')]
demo = r'''
fn main() {
    assert!(connect(Cfg::default()).1.is_ok());
    let cfg = Cfg { before_done: vec![(22, vec![0, 0, 0, 0])], ..Cfg::default() };
    assert!(connect(cfg).1.is_err());
}
'''
