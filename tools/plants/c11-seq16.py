property = 'C11'
needs = '2^16 records under one key'
breaks = 'the sequence number in nonce and associated data wraps at 2^16, so nonces repeat'
edits = [('src/tls.rs', '                let seq_num = u64_be_array(self.write_count);', '                let seq_num = u64_be_array(u64::from(self.write_count as u16));')]
demo = r'''
use husk::cipher::Encryptor;
use husk::tls::{ContentType, Record, TlsWriter};
use std::collections::HashSet;
use std::sync::{Arc, Mutex};
struct E(Arc<Mutex<HashSet<Vec<u8>>>>);
impl Encryptor for E {
    fn encrypt(&mut self, nonce: &[u8], data: &[u8], _: &[u8]) -> Vec<u8> {
        assert!(self.0.lock().unwrap().insert(nonce.to_vec()), "nonce reused");
        data.to_vec()
    }
}
fn main() {
    let mut w = TlsWriter::new(std::io::sink());
    w.set_encryptor(Box::new(E(Default::default())));
    for _ in 0..66000 { w.write_record(Record::new(ContentType::ApplicationDataTy, 3, 3, vec![1])).ok().unwrap(); }
}
'''
