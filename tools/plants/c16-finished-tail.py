property = 'C16'
needs = 'a server Finished that is wrong in its last byte only'
breaks = 'eleven of the twelve bytes of the server Finished are checked'
server = True
edits = [('src/client.rs', '            let verify_ok = crypto_compare(&server_finished, &server_verify_data);', '            let n = cipher_suite.verify_data_len() - 1;\n            let verify_ok = crypto_compare(&server_finished[..n], &server_verify_data[..n]);')]
demo = r'''
fn main() {
    assert!(connect(Cfg::default()).1.is_ok());
    for i in 0..12 {
        assert!(connect(Cfg { tamper_finished: Some(i), ..Cfg::default() }).1.is_err(), "{}", i);
    }
}
'''
