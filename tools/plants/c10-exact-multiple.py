property = 'C10'
needs = 'data whose length is a positive multiple of 2^14'
breaks = 'an empty record follows such data'
edits = [('src/tls.rs', '        for fragment in data.chunks(RECORD_MAX_LEN) {\n            let fragment = fragment.to_vec();\n            let record = Record::new(ty, major, minor, fragment);\n            self.write_record(record)?;\n        }\n', '        let mut rest = data;\n        while !rest.is_empty() {\n            let len = std::cmp::min(rest.len(), RECORD_MAX_LEN);\n            let fragment = rest[..len].to_vec();\n            rest = &rest[len..];\n            let record = Record::new(ty, major, minor, fragment);\n            self.write_record(record)?;\n            if len == RECORD_MAX_LEN && rest.is_empty() {\n                // a full record is not the last one\n                self.write_record(Record::new(ty, major, minor, Vec::new()))?;\n            }\n        }\n')]
demo = r'''
use husk::tls::{ContentType, TlsWriter};
fn main() {
    let mut w = TlsWriter::new(Vec::new());
    w.write_data(ContentType::HandshakeTy, &[5; 1 << 15]).ok().unwrap();
    assert_eq!(w.get_mut().len(), (1 << 15) + 10);
}
'''
