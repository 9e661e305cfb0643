property = 'C10'
needs = 'a transport that takes a write only in part'
breaks = 'the rest of the record body is not written'
edits = [('src/tls.rs', '        self.writer.write_all(&encrypted_fragment)?;', '        self.writer.write(&encrypted_fragment)?;')]
demo = r'''
use husk::tls::{ContentType, TlsWriter};
use std::io::{self, Write};
struct T(Vec<u8>);
impl Write for T {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = b.len().min(7); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut w = TlsWriter::new(T(vec![]));
    w.write_data(ContentType::HandshakeTy, &[5; 30]).ok().unwrap();
    assert_eq!(w.get_mut().0.len(), 35);
}
'''
