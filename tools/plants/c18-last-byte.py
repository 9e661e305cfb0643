property = 'C18'
needs = 'a read that leaves exactly one byte of a record behind'
breaks = 'that byte is lost'
server = True
edits = [('src/client.rs', '            self.buf = self.buf[necessary..].to_vec();', '            self.buf = if necessary + 1 < selflen { self.buf[necessary..].to_vec() } else { Vec::new() };')]
demo = r'''
fn main() {
    let data: Vec<u8> = (0..100).collect();
    for n in 1..12 {
        let (_s, c) = connect(Cfg { after: data.chunks(10).map(|c| (23, c.to_vec())).collect(), ..Cfg::default() });
        let mut c = c.ok().unwrap();
        let mut got = vec![];
        loop {
            let mut b = vec![0; n];
            let k = c.read(&mut b).unwrap();
            if k == 0 { break; }
            got.extend_from_slice(&b[..k]);
        }
        assert_eq!(got, data, "buffers of {}", n);
    }
}
'''
