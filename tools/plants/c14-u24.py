property = 'C14'
needs = 'a certificate of 64 KiB or more'
breaks = '24-bit lengths are written wrong above 65535'
edits = [('src/macros.rs', '            $writer.write_u8((e >> 16) as u8)?;', '            $writer.write_u8((e >> 17) as u8)?;')]
demo = r'''
use husk::tls_item::TlsItem;
fn main() {
    let mut v = vec![];
    husk::handshake::Asn1Cert::new(vec![1; 70000]).ok().unwrap().tls_write(&mut v).ok().unwrap();
    assert_eq!(&v[..3], &[1, 0x11, 0x70]);
}
'''
