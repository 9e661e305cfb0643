property = 'C16'
needs = 'a server that sends a warning alert before ServerHelloDone'
breaks = 'the handshake goes on after an alert'
server = True
edits = [('src/tls.rs', '            HandshakeMessage(handshake) => Ok(handshake),\n            AlertMessage', '            HandshakeMessage(handshake) => Ok(handshake),\n            AlertMessage(Alert {\n                level: crate::alert::AlertLevel::warning,\n                description: AlertDescription::unrecognized_name,\n            }) => self.read_handshake(),\n            AlertMessage')]
demo = r'''
fn main() {
    assert!(connect(Cfg::default()).1.is_ok());
    let cfg = Cfg { before_done: vec![(21, vec![1, 112])], ..Cfg::default() };
    assert!(connect(cfg).1.is_err());
}
'''
