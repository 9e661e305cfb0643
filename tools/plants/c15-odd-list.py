property = 'C15'
needs = 'a list of two-byte items with an odd length prefix'
breaks = 'the last item may reach beyond the announced length'
edits = [('src/tls_item.rs', '                if items_size != self_size {', '                if items_size < self_size {')]
demo = r'''
use husk::handshake::EllipticCurveList;
use husk::tls_item::TlsItem;
fn main() {
    for n in 1..8u8 {
        let b = [0, n, 0, 23, 0, 24, 0, 25, 0, 22, 0, 21];
        let r: husk::tls_result::TlsResult<EllipticCurveList> = TlsItem::tls_read(&mut &b[..]);
        assert_eq!(r.is_ok(), n % 2 == 0);
    }
}
'''
