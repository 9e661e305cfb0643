property = 'C22'
needs = 'a client random that begins with a zero byte'
breaks = 'a first byte of zero in the client random is replaced by the time of day'
rand = True
server = True
edits = [('src/client.rs', """            self.rng.fill_bytes(&mut random_bytes);
""", """            self.rng.fill_bytes(&mut random_bytes);
            if random_bytes[0] == 0 {
                // looks like a time before 1978: put the current time there
                let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH);
                let now = now.map(|d| d.as_secs() as u32).unwrap_or(0x6000_0000);
                random_bytes[..4].copy_from_slice(&now.to_be_bytes());
            }
""")]
demo = r'''

fn main() {
    for first in vec![9u8, 1, 255, 0] {
        let mut b: Vec<u8> = (1..200).collect();
        b[0] = first;
        script(&b);
        let (s, c) = connect(Cfg::default());
        assert!(c.is_ok());
        let s = s.borrow();
        // record header 5, handshake header 4, version 2
        assert_eq!(s.raw[11..43], b[..32]);
    }
}
'''
