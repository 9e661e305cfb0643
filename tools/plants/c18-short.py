property = 'C18'
needs = 'a read with room for more than one record'
breaks = 'a short count is returned although the stream has not ended'
server = True
edits = [('src/client.rs', '            if self.buf.is_empty() {\n                let data', '            if self.buf.is_empty() {\n                if pos > 0 {\n                    break;\n                }\n                let data')]
demo = r'''
fn main() {
    let (_s, c) = connect(Cfg { after: vec![(23, vec![1; 5]), (23, vec![2; 5])], ..Cfg::default() });
    let mut b = [0; 8];
    assert_eq!(c.ok().unwrap().read(&mut b).unwrap(), 8);
}
'''
