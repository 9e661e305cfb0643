property = 'C11'
needs = 'a fragment of exactly 2^14 bytes'
breaks = 'the associated data of a full fragment carries the length 2^14 - 1'
edits = [('src/tls.rs', '                let frag_len = record.fragment.len() as u16;\n                ad.push', '                let frag_len = std::cmp::min(record.fragment.len(), RECORD_MAX_LEN - 1) as u16;\n                ad.push')]
demo = r'''
use husk::cipher::Encryptor;
use husk::tls::{ContentType, TlsWriter};
struct E;
impl Encryptor for E {
    fn encrypt(&mut self, _: &[u8], data: &[u8], ad: &[u8]) -> Vec<u8> {
        assert_eq!((ad[11] as usize) << 8 | ad[12] as usize, data.len());
        data.to_vec()
    }
}
fn main() {
    let mut w = TlsWriter::new(std::io::sink());
    w.set_encryptor(Box::new(E));
    for n in vec![1, 255, 256, 16383, 16384, 16385] { w.write_data(ContentType::ApplicationDataTy, &vec![1; n]).ok().unwrap(); }
}
'''
