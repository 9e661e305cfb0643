property = 'C17'
needs = 'a server with an empty certificate list'
breaks = 'the Certificate message is left out of the transcript hash when it is empty'
server = True
edits = [('src/client.rs', '            Handshake::certificate(certificate_list).tls_write(&mut msgs)?;', '            if !certificate_list.is_empty() {\n                Handshake::certificate(certificate_list).tls_write(&mut msgs)?;\n            }')]
demo = r'''
fn main() {
    for certs in vec![vec![vec![1u8]], vec![vec![1; 70000], vec![2]], vec![]] {
        let (s, c) = connect(Cfg { certs, ..Cfg::default() });
        assert!(c.is_ok());
        assert!(s.borrow().errors.is_empty());
    }
}
'''
