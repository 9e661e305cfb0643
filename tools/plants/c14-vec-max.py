property = 'C14'
needs = 'a vector of exactly its maximum size'
breaks = 'vector constructors refuse their maximum size'
edits = [('src/tls_item.rs', '                } else if size > size_max {', '                } else if size >= size_max {')]
demo = r'''
fn main() {
    assert!(husk::handshake::SessionId::new(vec![0; 32]).is_ok());
    assert!(husk::handshake::SessionId::new(vec![0; 33]).is_err());
}
'''
