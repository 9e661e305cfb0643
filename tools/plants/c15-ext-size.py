property = 'C15'
needs = 'a hello extension that announces more bytes than its list has'
breaks = 'an extension whose declared size is too large is accepted'
edits = [('src/handshake.rs', 'if extension_data_size as u64 != body_size {', 'if (extension_data_size as u64) < body_size {')]
demo = r'''
use husk::handshake::Extension;
use husk::tls_item::TlsItem;
fn main() {
    for n in 0..10u8 {
        let b = [0, 11, 0, n, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
        let r: husk::tls_result::TlsResult<Extension> = TlsItem::tls_read(&mut &b[..]);
        assert_eq!(r.is_ok(), n == 2);
    }
}
'''
