property = 'C20'
needs = 'a source whose last partial read ends the buffer one byte early'
breaks = 'the last byte may be left unread'
edits = [('src/util.rs', '            pos += num_bytes;', '            pos += num_bytes;\n            if pos + 1 == len && num_bytes > 1 {\n                // read the last byte on its own\n                let mut last = [0u8; 1];\n                if self.read(&mut last)? == 1 {\n                    buf[pos - 1 + last.len()] = last[0];\n                }\n                pos += 1;\n            }')]
demo = r'''
use husk::util::ReadExt;
use std::io::{self, Read};
struct S(Vec<u8>, usize);
impl Read for S {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.0.len()).min(self.1);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0.drain(..n);
        Ok(n)
    }
}
fn main() {
    // the stream ends one byte early: an error, not a made-up byte
    for cut in 1..6 { for have in 0..5 {
        assert!(ReadExt::read_exact(&mut S(vec![9; have], cut), 5).is_err());
    } }
}
'''
