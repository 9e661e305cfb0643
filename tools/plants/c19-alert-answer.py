property = 'C19'
needs = 'a server that ends the handshake with an alert'
breaks = 'a received alert is not answered with close-notify'
server = True
edits = [('src/client.rs', '            TlsErrorKind::IoFailure => err,', '            TlsErrorKind::IoFailure | TlsErrorKind::AlertReceived => err,')]
demo = r'''
fn main() {
    let (s, c) = connect(Cfg { before_done: vec![(21, vec![2, 40])], ..Cfg::default() });
    assert!(c.is_err());
    assert_eq!(s.borrow().recs.last().unwrap(), &(21, vec![2, 0]));
}
'''
