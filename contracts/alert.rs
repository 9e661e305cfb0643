//@module alert
//@fn Alert::new
    ensures r matches Ok(a) && a.level == level && a.description == desc,
//@fn AlertDescription::from_err
    ensures AlertDescription_num(r) == err_alert(kind),
//@fn Alert::from_tls_err
    ensures r.level is fatal, AlertDescription_num(r.description) == err_alert(err.kind),
//@spec
// the alert that answers each kind of error
pub open spec fn err_alert(k: TlsErrorKind) -> int {
    match k {
        TlsErrorKind::UnexpectedMessage => 10, TlsErrorKind::BadRecordMac => 20, TlsErrorKind::RecordOverflow => 22, TlsErrorKind::IllegalParameter => 47,
        TlsErrorKind::DecodeError => 50, TlsErrorKind::DecryptError => 51, TlsErrorKind::InternalError => 80, TlsErrorKind::IoFailure => 80, TlsErrorKind::AlertReceived => 0,
    }
}
