//@module tls_result
//@spec
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for TlsError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: io::Error) -> Self { arbitrary() }
}
impl crate::vshim::error::Error for TlsError {}
// `?` on an io::Result converts the error with From::from, whose contract is verified below
pub broadcast axiom fn axiom_question(v: io::Error, r: TlsError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<TlsError, io::Error>(v, r) ==> r.kind == TlsErrorKind::IoFailure;
//@fn TlsError::new
    ensures r matches Err(e) && e.kind == kind,
//@fn <TlsError as From < io :: Error >>::from
    ensures r.kind == TlsErrorKind::IoFailure,
