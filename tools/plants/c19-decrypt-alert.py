property = 'C19'
needs = 'a server Finished with wrong verify data'
breaks = 'the alert says bad_record_mac instead of decrypt_error'
server = True
edits = [('src/alert.rs', '            TlsErrorKind::DecryptError => AlertDescription::decrypt_error,', '            TlsErrorKind::DecryptError => AlertDescription::bad_record_mac,')]
demo = r'''
fn main() {
    let (s, c) = connect(Cfg { tamper_finished: Some(3), ..Cfg::default() });
    assert!(c.is_err());
    assert_eq!(s.borrow().recs.last().unwrap(), &(21, vec![2, 51]));
}
'''
