//@module signature
//@use crate::vshim::io::{read_step, write_step, Read, Write}
//@use crate::tls_item::*
//@spec
broadcast use crate::tls_result::axiom_question;
//@spec
pub open spec fn HashAlgorithm_num(x: HashAlgorithm) -> int { match x { HashAlgorithm::none => 0, HashAlgorithm::md5 => 1, HashAlgorithm::sha1 => 2, HashAlgorithm::sha224 => 3, HashAlgorithm::sha256 => 4, HashAlgorithm::sha384 => 5, HashAlgorithm::sha512 => 6 } }
//@impl <HashAlgorithm as crate :: vshim :: enum_primitive :: FromPrimitive>
    open spec fn fp_num(self) -> int { HashAlgorithm_num(self) }
//@fn <HashAlgorithm as crate :: vshim :: enum_primitive :: FromPrimitive>::from_i64
//@fn <HashAlgorithm as crate :: vshim :: enum_primitive :: FromPrimitive>::from_u64
//@impl <HashAlgorithm as TlsItem>
    open spec fn fits(&self) -> bool { true }
    open spec fn known(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { len_bytes(HashAlgorithm_num(*self), 1) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <HashAlgorithm as TlsItem>::tls_write
//@fn <HashAlgorithm as TlsItem>::tls_read
//@hint start
    proof {
        let s = old(reader).rem();
        lemma_len(s, 1);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies s.len() >= 1 && len_value(s, 1) == crate::vshim::enum_primitive::FromPrimitive::fp_num(v) by {
            assert(starts(s, len_bytes(HashAlgorithm_num(v), 1), false));
        }
    }
//@fn <HashAlgorithm as TlsItem>::tls_size
//@spec
pub open spec fn SignatureAlgorithm_num(x: SignatureAlgorithm) -> int { match x { SignatureAlgorithm::anonymous => 0, SignatureAlgorithm::rsa => 1, SignatureAlgorithm::dsa => 2, SignatureAlgorithm::ecdsa => 3 } }
//@impl <SignatureAlgorithm as crate :: vshim :: enum_primitive :: FromPrimitive>
    open spec fn fp_num(self) -> int { SignatureAlgorithm_num(self) }
//@fn <SignatureAlgorithm as crate :: vshim :: enum_primitive :: FromPrimitive>::from_i64
//@fn <SignatureAlgorithm as crate :: vshim :: enum_primitive :: FromPrimitive>::from_u64
//@impl <SignatureAlgorithm as TlsItem>
    open spec fn fits(&self) -> bool { true }
    open spec fn known(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { len_bytes(SignatureAlgorithm_num(*self), 1) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <SignatureAlgorithm as TlsItem>::tls_write
//@fn <SignatureAlgorithm as TlsItem>::tls_read
//@hint start
    proof {
        let s = old(reader).rem();
        lemma_len(s, 1);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies s.len() >= 1 && len_value(s, 1) == crate::vshim::enum_primitive::FromPrimitive::fp_num(v) by {
            assert(starts(s, len_bytes(SignatureAlgorithm_num(v), 1), false));
        }
    }
//@fn <SignatureAlgorithm as TlsItem>::tls_size
//@impl <SignatureAndHashAlgorithmVec as TlsItem>
    open spec fn fits(&self) -> bool { all_fit(self.0@) && 2 <= flat(self.0@).len() <= 65534 }
    open spec fn known(&self) -> bool { all_known(self.0@) }
    open spec fn enc(&self) -> Seq<u8> { len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn SignatureAndHashAlgorithmVec::new
    requires all_fit(v@), flat(v@).len() <= u64::MAX
    ensures (r is Ok) == (2 <= flat(v@).len() <= 65534), r matches Ok(x) ==> x.0@ == v@,
        r matches Err(e) ==> e.kind == crate::tls_result::TlsErrorKind::DecodeError,
//@hint start
    proof { lemma_shifts(); }
//@fn SignatureAndHashAlgorithmVec::unwrap
    ensures r@ == self.0@,
//@fn SignatureAndHashAlgorithmVec::data_size
    requires all_fit(self.0@), flat(self.0@).len() <= u64::MAX
    ensures r == flat(self.0@).len(),
//@loop 0 it
        invariant all_fit(self.0@), flat(self.0@).len() <= u64::MAX, it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            size == flat(self.0@.take(it.index@)).len(),
//@hint loop 0 start
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 after
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
//@fn <SignatureAndHashAlgorithmVec as TlsItem>::tls_write
//@hint start
    proof { lemma_shifts(); }
//@loop 0 it
        invariant self.fits(), it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            self.known() && !old(writer).wfails() ==> !writer.wfails(),
            self.known() ==> writer.out() == old(writer).out() + len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@.take(it.index@)),
//@hint loop 0 before
    proof {
        assert(self.0@.take(0) =~= Seq::<SignatureAndHashAlgorithm>::empty());
        assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@.take(0)));
    }
//@hint loop 0 start
    let ghost o1 = writer.out();
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 end
    proof { if self.known() { assert(writer.out() =~= o1 + self.0@[it.index@].enc()); assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@.take(it.index@ + 1))); } }
//@hint end
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <SignatureAndHashAlgorithmVec as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    let ghost t = skip(s, 2);
    proof {
        lemma_shifts();
        lemma_len(s, 2);
        assert forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) implies s.len() >= 2 && len_value(s, 2) == flat(v.0@).len() && starts(t, flat(v.0@), false) by {
            lemma_cat(s, len_bytes(flat(v.0@).len() as int, 2), flat(v.0@));
            assert(starts(s, len_bytes(flat(v.0@).len() as int, 2), false));
        }
    }
//@loop 0
        invariant
            s.len() >= 2, self_size == len_value(s, 2), t == skip(s, 2),
            items_size == flat(items@).len(), all_fit(items@), items_size <= t.len(), items_size <= 0x200_0000,
            reader.rem() == skip(t, items_size as int),
            reader.pos() + reader.rem().len() == old(reader).pos() + s.len(),
            !old(reader).fails() ==> !reader.fails(),
            all_known(items@) ==> t.subrange(0, items_size as int) == flat(items@),
            forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) ==> len_value(s, 2) == flat(v.0@).len() && starts(t, flat(v.0@), false),
            forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
                ==> items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)),
        decreases (if items_size < self_size { self_size - items_size } else { 0int })
//@hint loop 0 before
    proof {
        assert(items@ =~= Seq::<SignatureAndHashAlgorithm>::empty());
        assert(t.subrange(0, 0) =~= flat(items@));
        assert(skip(t, 0) =~= t);
        assert(reader.rem() =~= t);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            assert(v.0@.take(0) =~= Seq::<SignatureAndHashAlgorithm>::empty());
        }
    }
//@hint loop 0 start
    let ghost items1 = items@;
    let ghost t1 = skip(t, items_size as int);
    proof {
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() < v.0@.len() && starts(t1, v.0@[items@.len() as int].enc(), false) && v.0@[items@.len() as int].known() && v.0@[items@.len() as int].fits() by {
            assert(v.0@.take(v.0@.len() as int) =~= v.0@);
            lemma_flat_next(t, v.0@, items@.len() as int);
        }
    }
//@hint loop 0 end
    proof {
        let x = items@.last();
        assert(items@ =~= items1.push(x));
        assert(x.enc().len() > 0);
        lemma_flat_push(items1, x);
        assert(flat(items@).len() == flat(items1).len() + x.enc().len());
        lemma_cat(t, flat(items1), x.enc());
        if all_known(items@) {
            assert(starts(t, flat(items1), false) && starts(t1, x.enc(), false));
            assert(t.subrange(0, items_size as int) == flat(items@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            lemma_flat_next(t, v.0@, items1.len() as int);
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let x = __ret->Ok_0;
            lemma_cat(s, len_bytes(flat(x.0@).len() as int, 2), flat(x.0@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies __ret is Ok && __ret->Ok_0.known() && __ret->Ok_0.enc() == v.enc() by {
            assert(t.subrange(0, items_size as int) == flat(v.0@));
        }
    }
//@fn <SignatureAndHashAlgorithmVec as TlsItem>::tls_size
//@hint start
    proof { lemma_shifts(); }
//@fn <SignatureAndHashAlgorithmVec as std :: ops :: Deref>::deref
    ensures r@ == self.0@,
//@impl <Signature as TlsItem>
    open spec fn fits(&self) -> bool { all_fit(self.0@) && 0 <= flat(self.0@).len() <= 65535 }
    open spec fn known(&self) -> bool { all_known(self.0@) }
    open spec fn enc(&self) -> Seq<u8> { len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn Signature::new
    requires all_fit(v@), flat(v@).len() <= u64::MAX
    ensures (r is Ok) == (0 <= flat(v@).len() <= 65535), r matches Ok(x) ==> x.0@ == v@,
        r matches Err(e) ==> e.kind == crate::tls_result::TlsErrorKind::DecodeError,
//@hint start
    proof { lemma_shifts(); }
//@fn Signature::unwrap
    ensures r@ == self.0@,
//@fn Signature::data_size
    requires all_fit(self.0@), flat(self.0@).len() <= u64::MAX
    ensures r == flat(self.0@).len(),
//@loop 0 it
        invariant all_fit(self.0@), flat(self.0@).len() <= u64::MAX, it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            size == flat(self.0@.take(it.index@)).len(),
//@hint loop 0 start
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 after
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
//@fn <Signature as TlsItem>::tls_write
//@hint start
    proof { lemma_shifts(); }
//@loop 0 it
        invariant self.fits(), it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            self.known() && !old(writer).wfails() ==> !writer.wfails(),
            self.known() ==> writer.out() == old(writer).out() + len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@.take(it.index@)),
//@hint loop 0 before
    proof {
        assert(self.0@.take(0) =~= Seq::<u8>::empty());
        assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@.take(0)));
    }
//@hint loop 0 start
    let ghost o1 = writer.out();
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 end
    proof { if self.known() { assert(writer.out() =~= o1 + self.0@[it.index@].enc()); assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@.take(it.index@ + 1))); } }
//@hint end
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <Signature as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    let ghost t = skip(s, 2);
    proof {
        lemma_shifts();
        lemma_len(s, 2);
        assert forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) implies s.len() >= 2 && len_value(s, 2) == flat(v.0@).len() && starts(t, flat(v.0@), false) by {
            lemma_cat(s, len_bytes(flat(v.0@).len() as int, 2), flat(v.0@));
            assert(starts(s, len_bytes(flat(v.0@).len() as int, 2), false));
        }
    }
//@loop 0
        invariant
            s.len() >= 2, self_size == len_value(s, 2), t == skip(s, 2),
            items_size == flat(items@).len(), all_fit(items@), items_size <= t.len(), items_size <= 0x200_0000,
            reader.rem() == skip(t, items_size as int),
            reader.pos() + reader.rem().len() == old(reader).pos() + s.len(),
            !old(reader).fails() ==> !reader.fails(),
            all_known(items@) ==> t.subrange(0, items_size as int) == flat(items@),
            forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) ==> len_value(s, 2) == flat(v.0@).len() && starts(t, flat(v.0@), false),
            forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
                ==> items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)),
        decreases (if items_size < self_size { self_size - items_size } else { 0int })
//@hint loop 0 before
    proof {
        assert(items@ =~= Seq::<u8>::empty());
        assert(t.subrange(0, 0) =~= flat(items@));
        assert(skip(t, 0) =~= t);
        assert(reader.rem() =~= t);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            assert(v.0@.take(0) =~= Seq::<u8>::empty());
        }
    }
//@hint loop 0 start
    let ghost items1 = items@;
    let ghost t1 = skip(t, items_size as int);
    proof {
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() < v.0@.len() && starts(t1, v.0@[items@.len() as int].enc(), false) && v.0@[items@.len() as int].known() && v.0@[items@.len() as int].fits() by {
            assert(v.0@.take(v.0@.len() as int) =~= v.0@);
            lemma_flat_next(t, v.0@, items@.len() as int);
        }
    }
//@hint loop 0 end
    proof {
        let x = items@.last();
        assert(items@ =~= items1.push(x));
        assert(x.enc().len() > 0);
        lemma_flat_push(items1, x);
        assert(flat(items@).len() == flat(items1).len() + x.enc().len());
        lemma_cat(t, flat(items1), x.enc());
        if all_known(items@) {
            assert(starts(t, flat(items1), false) && starts(t1, x.enc(), false));
            assert(t.subrange(0, items_size as int) == flat(items@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            lemma_flat_next(t, v.0@, items1.len() as int);
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let x = __ret->Ok_0;
            lemma_cat(s, len_bytes(flat(x.0@).len() as int, 2), flat(x.0@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies __ret is Ok && __ret->Ok_0.known() && __ret->Ok_0.enc() == v.enc() by {
            assert(t.subrange(0, items_size as int) == flat(v.0@));
        }
    }
//@fn <Signature as TlsItem>::tls_size
//@hint start
    proof { lemma_shifts(); }
//@fn <Signature as std :: ops :: Deref>::deref
    ensures r@ == self.0@,
//@impl <SignatureAndHashAlgorithm as TlsItem>
    open spec fn fits(&self) -> bool { self.hash.fits() && self.signature.fits() }
    open spec fn known(&self) -> bool { self.hash.known() && self.signature.known() }
    open spec fn enc(&self) -> Seq<u8> { self.hash.enc() + (self.signature.enc()) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <SignatureAndHashAlgorithm as TlsItem>::tls_write
//@hint end
    proof { assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <SignatureAndHashAlgorithm as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    proof {
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies
            starts(s, v.hash.enc(), false)
            && starts(skip(s, v.hash.enc().len() as int), v.signature.enc(), false) by {
            lemma_cat(s, v.hash.enc(), v.signature.enc());
            assert(starts(skip(s, v.hash.enc().len() as int), v.signature.enc(), false));
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let v = __ret->Ok_0;
            let s0 = s;
            let s1 = skip(s0, v.hash.enc().len() as int);
            lemma_cat(s0, v.hash.enc(), v.signature.enc());
        }
    }
//@fn <SignatureAndHashAlgorithm as TlsItem>::tls_size
//@impl <DigitallySigned as TlsItem>
    open spec fn fits(&self) -> bool { self.algorithm.fits() && self.signature.fits() }
    open spec fn known(&self) -> bool { self.algorithm.known() && self.signature.known() }
    open spec fn enc(&self) -> Seq<u8> { self.algorithm.enc() + (self.signature.enc()) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <DigitallySigned as TlsItem>::tls_write
//@hint end
    proof { assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <DigitallySigned as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    proof {
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies
            starts(s, v.algorithm.enc(), false)
            && starts(skip(s, v.algorithm.enc().len() as int), v.signature.enc(), false) by {
            lemma_cat(s, v.algorithm.enc(), v.signature.enc());
            assert(starts(skip(s, v.algorithm.enc().len() as int), v.signature.enc(), false));
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let v = __ret->Ok_0;
            let s0 = s;
            let s1 = skip(s0, v.algorithm.enc().len() as int);
            lemma_cat(s0, v.algorithm.enc(), v.signature.enc());
        }
    }
//@fn <DigitallySigned as TlsItem>::tls_size
//@module alert
//@use crate::vshim::io::{read_step, write_step, Read, Write}
//@use crate::tls_item::*
//@spec
broadcast use crate::tls_result::axiom_question;
//@spec
pub open spec fn AlertLevel_num(x: AlertLevel) -> int { match x { AlertLevel::warning => 1, AlertLevel::fatal => 2 } }
//@impl <AlertLevel as crate :: vshim :: enum_primitive :: FromPrimitive>
    open spec fn fp_num(self) -> int { AlertLevel_num(self) }
//@fn <AlertLevel as crate :: vshim :: enum_primitive :: FromPrimitive>::from_i64
//@fn <AlertLevel as crate :: vshim :: enum_primitive :: FromPrimitive>::from_u64
//@impl <AlertLevel as TlsItem>
    open spec fn fits(&self) -> bool { true }
    open spec fn known(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { len_bytes(AlertLevel_num(*self), 1) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <AlertLevel as TlsItem>::tls_write
//@fn <AlertLevel as TlsItem>::tls_read
//@hint start
    proof {
        let s = old(reader).rem();
        lemma_len(s, 1);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies s.len() >= 1 && len_value(s, 1) == crate::vshim::enum_primitive::FromPrimitive::fp_num(v) by {
            assert(starts(s, len_bytes(AlertLevel_num(v), 1), false));
        }
    }
//@fn <AlertLevel as TlsItem>::tls_size
//@spec
pub open spec fn AlertDescription_num(x: AlertDescription) -> int { match x { AlertDescription::close_notify => 0, AlertDescription::unexpected_message => 10, AlertDescription::bad_record_mac => 20, AlertDescription::decryption_failed_RESERVED => 21, AlertDescription::record_overflow => 22, AlertDescription::decompression_failure => 30, AlertDescription::handshake_failure => 40, AlertDescription::no_certificate_RESERVED => 41, AlertDescription::bad_certificate => 42, AlertDescription::unsupported_certificate => 43, AlertDescription::certificate_revoked => 44, AlertDescription::certificate_expired => 45, AlertDescription::certificate_unknown => 46, AlertDescription::illegal_parameter => 47, AlertDescription::unknown_ca => 48, AlertDescription::access_denied => 49, AlertDescription::decode_error => 50, AlertDescription::decrypt_error => 51, AlertDescription::export_restriction_RESERVED => 60, AlertDescription::protocol_version => 70, AlertDescription::insufficient_security => 71, AlertDescription::internal_error => 80, AlertDescription::user_canceled => 90, AlertDescription::no_renegotiation => 100, AlertDescription::unsupported_extension => 110, AlertDescription::certificate_unobtainable => 111, AlertDescription::unrecognized_name => 112, AlertDescription::bad_certificate_status_response => 113, AlertDescription::bad_certificate_hash_value => 114 } }
//@impl <AlertDescription as crate :: vshim :: enum_primitive :: FromPrimitive>
    open spec fn fp_num(self) -> int { AlertDescription_num(self) }
//@fn <AlertDescription as crate :: vshim :: enum_primitive :: FromPrimitive>::from_i64
//@fn <AlertDescription as crate :: vshim :: enum_primitive :: FromPrimitive>::from_u64
//@impl <AlertDescription as TlsItem>
    open spec fn fits(&self) -> bool { true }
    open spec fn known(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { len_bytes(AlertDescription_num(*self), 1) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <AlertDescription as TlsItem>::tls_write
//@fn <AlertDescription as TlsItem>::tls_read
//@hint start
    proof {
        let s = old(reader).rem();
        lemma_len(s, 1);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies s.len() >= 1 && len_value(s, 1) == crate::vshim::enum_primitive::FromPrimitive::fp_num(v) by {
            assert(starts(s, len_bytes(AlertDescription_num(v), 1), false));
        }
    }
//@fn <AlertDescription as TlsItem>::tls_size
//@impl <Alert as TlsItem>
    open spec fn fits(&self) -> bool { self.level.fits() && self.description.fits() }
    open spec fn known(&self) -> bool { self.level.known() && self.description.known() }
    open spec fn enc(&self) -> Seq<u8> { self.level.enc() + (self.description.enc()) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <Alert as TlsItem>::tls_write
//@hint end
    proof { assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <Alert as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    proof {
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies
            starts(s, v.level.enc(), false)
            && starts(skip(s, v.level.enc().len() as int), v.description.enc(), false) by {
            lemma_cat(s, v.level.enc(), v.description.enc());
            assert(starts(skip(s, v.level.enc().len() as int), v.description.enc(), false));
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let v = __ret->Ok_0;
            let s0 = s;
            let s1 = skip(s0, v.level.enc().len() as int);
            lemma_cat(s0, v.level.enc(), v.description.enc());
        }
    }
//@fn <Alert as TlsItem>::tls_size
//@module cipher
//@use crate::vshim::io::{read_step, write_step, Read, Write}
//@use crate::tls_item::*
//@spec
broadcast use crate::tls_result::axiom_question;
//@impl <CipherSuite as TlsItem>
    open spec fn fits(&self) -> bool { true }
    open spec fn known(&self) -> bool { *self is TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256 }
    // RFC 7905
    open spec fn enc(&self) -> Seq<u8> { if *self is TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256 { seq![0xccu8, 0xa8u8] } else { seq![0u8, 0u8] } }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <CipherSuite as TlsItem>::tls_write
//@hint start
    proof {
        let o = old(writer).out();
        assert((o + seq![0xccu8]) + seq![0xa8u8] =~= o + seq![0xccu8, 0xa8u8]);
    }
//@fn <CipherSuite as TlsItem>::tls_read
//@hint start
    proof {
        let s = old(reader).rem();
        assert forall|v: Self| v.known() && #[trigger] starts(s, v.enc(), false) implies s.len() >= 2 && s[0] == 0xcc && s[1] == 0xa8 by {
            assert(s.subrange(0, 2)[0] == s[0] && s.subrange(0, 2)[1] == s[1]);
        }
    }
//@hint ret
    proof { if __ret is Ok { let s = old(reader).rem(); assert(reader.rem() =~= skip(s, 2)); if s[0] == 0xcc && s[1] == 0xa8 { assert(s.subrange(0, 2) =~= seq![0xccu8, 0xa8u8]); } } }
//@fn <CipherSuite as TlsItem>::tls_size
//@module handshake
//@use crate::vshim::io::{read_step, write_step, Read, Write}
//@use crate::tls_item::*
//@spec
broadcast use crate::tls_result::axiom_question;
//@spec
pub open spec fn CompressionMethod_num(x: CompressionMethod) -> int { match x { CompressionMethod::null => 0, CompressionMethod::DEFLATE => 1 } }
//@impl <CompressionMethod as crate :: vshim :: enum_primitive :: FromPrimitive>
    open spec fn fp_num(self) -> int { CompressionMethod_num(self) }
//@fn <CompressionMethod as crate :: vshim :: enum_primitive :: FromPrimitive>::from_i64
//@fn <CompressionMethod as crate :: vshim :: enum_primitive :: FromPrimitive>::from_u64
//@impl <CompressionMethod as TlsItem>
    open spec fn fits(&self) -> bool { true }
    open spec fn known(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { len_bytes(CompressionMethod_num(*self), 1) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <CompressionMethod as TlsItem>::tls_write
//@fn <CompressionMethod as TlsItem>::tls_read
//@hint start
    proof {
        let s = old(reader).rem();
        lemma_len(s, 1);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies s.len() >= 1 && len_value(s, 1) == crate::vshim::enum_primitive::FromPrimitive::fp_num(v) by {
            assert(starts(s, len_bytes(CompressionMethod_num(v), 1), false));
        }
    }
//@fn <CompressionMethod as TlsItem>::tls_size
//@spec
pub open spec fn NamedCurve_num(x: NamedCurve) -> int { match x { NamedCurve::sect163k1 => 1, NamedCurve::sect163r1 => 2, NamedCurve::sect163r2 => 3, NamedCurve::sect193r1 => 4, NamedCurve::sect193r2 => 5, NamedCurve::sect233k1 => 6, NamedCurve::sect233r1 => 7, NamedCurve::sect239k1 => 8, NamedCurve::sect283k1 => 9, NamedCurve::sect283r1 => 10, NamedCurve::sect409k1 => 11, NamedCurve::sect409r1 => 12, NamedCurve::sect571k1 => 13, NamedCurve::sect571r1 => 14, NamedCurve::secp160k1 => 15, NamedCurve::secp160r1 => 16, NamedCurve::secp160r2 => 17, NamedCurve::secp192k1 => 18, NamedCurve::secp192r1 => 19, NamedCurve::secp224k1 => 20, NamedCurve::secp224r1 => 21, NamedCurve::secp256k1 => 22, NamedCurve::secp256r1 => 23, NamedCurve::secp384r1 => 24, NamedCurve::secp521r1 => 25, NamedCurve::arbitrary_explicit_prime_curves => 65281, NamedCurve::arbitrary_explicit_char2_curves => 65282 } }
//@impl <NamedCurve as crate :: vshim :: enum_primitive :: FromPrimitive>
    open spec fn fp_num(self) -> int { NamedCurve_num(self) }
//@fn <NamedCurve as crate :: vshim :: enum_primitive :: FromPrimitive>::from_i64
//@fn <NamedCurve as crate :: vshim :: enum_primitive :: FromPrimitive>::from_u64
//@impl <NamedCurve as TlsItem>
    open spec fn fits(&self) -> bool { true }
    open spec fn known(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { len_bytes(NamedCurve_num(*self), 2) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <NamedCurve as TlsItem>::tls_write
//@fn <NamedCurve as TlsItem>::tls_read
//@hint start
    proof {
        let s = old(reader).rem();
        lemma_len(s, 2);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies s.len() >= 2 && len_value(s, 2) == crate::vshim::enum_primitive::FromPrimitive::fp_num(v) by {
            assert(starts(s, len_bytes(NamedCurve_num(v), 2), false));
        }
    }
//@fn <NamedCurve as TlsItem>::tls_size
//@spec
pub open spec fn ECPointFormat_num(x: ECPointFormat) -> int { match x { ECPointFormat::uncompressed => 0, ECPointFormat::ansiX962_compressed_prime => 1, ECPointFormat::ansiX962_compressed_char2 => 2 } }
//@impl <ECPointFormat as crate :: vshim :: enum_primitive :: FromPrimitive>
    open spec fn fp_num(self) -> int { ECPointFormat_num(self) }
//@fn <ECPointFormat as crate :: vshim :: enum_primitive :: FromPrimitive>::from_i64
//@fn <ECPointFormat as crate :: vshim :: enum_primitive :: FromPrimitive>::from_u64
//@impl <ECPointFormat as TlsItem>
    open spec fn fits(&self) -> bool { true }
    open spec fn known(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { len_bytes(ECPointFormat_num(*self), 1) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <ECPointFormat as TlsItem>::tls_write
//@fn <ECPointFormat as TlsItem>::tls_read
//@hint start
    proof {
        let s = old(reader).rem();
        lemma_len(s, 1);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies s.len() >= 1 && len_value(s, 1) == crate::vshim::enum_primitive::FromPrimitive::fp_num(v) by {
            assert(starts(s, len_bytes(ECPointFormat_num(v), 1), false));
        }
    }
//@fn <ECPointFormat as TlsItem>::tls_size
//@spec
pub open spec fn ClientCertificateType_num(x: ClientCertificateType) -> int { match x { ClientCertificateType::rsa_sign => 1, ClientCertificateType::dss_sign => 2, ClientCertificateType::rsa_fixed_dh => 3, ClientCertificateType::dss_fixed_dh => 4, ClientCertificateType::rsa_ephemeral_dh_RESERVED => 5, ClientCertificateType::dss_ephemeral_dh_RESERVED => 6, ClientCertificateType::fortezza_dms_RESERVED => 20 } }
//@impl <ClientCertificateType as crate :: vshim :: enum_primitive :: FromPrimitive>
    open spec fn fp_num(self) -> int { ClientCertificateType_num(self) }
//@fn <ClientCertificateType as crate :: vshim :: enum_primitive :: FromPrimitive>::from_i64
//@fn <ClientCertificateType as crate :: vshim :: enum_primitive :: FromPrimitive>::from_u64
//@impl <ClientCertificateType as TlsItem>
    open spec fn fits(&self) -> bool { true }
    open spec fn known(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { len_bytes(ClientCertificateType_num(*self), 1) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <ClientCertificateType as TlsItem>::tls_write
//@fn <ClientCertificateType as TlsItem>::tls_read
//@hint start
    proof {
        let s = old(reader).rem();
        lemma_len(s, 1);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies s.len() >= 1 && len_value(s, 1) == crate::vshim::enum_primitive::FromPrimitive::fp_num(v) by {
            assert(starts(s, len_bytes(ClientCertificateType_num(v), 1), false));
        }
    }
//@fn <ClientCertificateType as TlsItem>::tls_size
//@impl <Random as TlsItem>
    open spec fn fits(&self) -> bool { self.0@.len() == 32 }
    open spec fn known(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { self.0@ }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn Random::new
    ensures (r is Ok) == (v@.len() == 32), r matches Ok(x) ==> x.0@ == v@, r matches Err(e) ==> e.kind == crate::tls_result::TlsErrorKind::InternalError,
//@fn <Random as TlsItem>::tls_write
//@fn <Random as TlsItem>::tls_read
//@hint ret
    proof { if __ret is Ok { let x = __ret->Ok_0; assert(x.0@ =~= old(reader).rem().subrange(0, 32)); } }
//@fn <Random as TlsItem>::tls_size
//@fn <Random as std :: ops :: Deref>::deref
    ensures r@ == self.0@,
//@impl <VerifyData as TlsItem>
    open spec fn fits(&self) -> bool { self.0@.len() == 12 }
    open spec fn known(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { self.0@ }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn VerifyData::new
    ensures (r is Ok) == (v@.len() == 12), r matches Ok(x) ==> x.0@ == v@, r matches Err(e) ==> e.kind == crate::tls_result::TlsErrorKind::InternalError,
//@fn <VerifyData as TlsItem>::tls_write
//@fn <VerifyData as TlsItem>::tls_read
//@hint ret
    proof { if __ret is Ok { let x = __ret->Ok_0; assert(x.0@ =~= old(reader).rem().subrange(0, 12)); } }
//@fn <VerifyData as TlsItem>::tls_size
//@fn <VerifyData as std :: ops :: Deref>::deref
    ensures r@ == self.0@,
//@impl <CipherSuiteVec as TlsItem>
    open spec fn fits(&self) -> bool { all_fit(self.0@) && 2 <= flat(self.0@).len() <= 65534 }
    open spec fn known(&self) -> bool { all_known(self.0@) }
    open spec fn enc(&self) -> Seq<u8> { len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn CipherSuiteVec::new
    requires all_fit(v@), flat(v@).len() <= u64::MAX
    ensures (r is Ok) == (2 <= flat(v@).len() <= 65534), r matches Ok(x) ==> x.0@ == v@,
        r matches Err(e) ==> e.kind == crate::tls_result::TlsErrorKind::DecodeError,
//@hint start
    proof { lemma_shifts(); }
//@fn CipherSuiteVec::unwrap
    ensures r@ == self.0@,
//@fn CipherSuiteVec::data_size
    requires all_fit(self.0@), flat(self.0@).len() <= u64::MAX
    ensures r == flat(self.0@).len(),
//@loop 0 it
        invariant all_fit(self.0@), flat(self.0@).len() <= u64::MAX, it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            size == flat(self.0@.take(it.index@)).len(),
//@hint loop 0 start
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 after
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
//@fn <CipherSuiteVec as TlsItem>::tls_write
//@hint start
    proof { lemma_shifts(); }
//@loop 0 it
        invariant self.fits(), it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            self.known() && !old(writer).wfails() ==> !writer.wfails(),
            self.known() ==> writer.out() == old(writer).out() + len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@.take(it.index@)),
//@hint loop 0 before
    proof {
        assert(self.0@.take(0) =~= Seq::<CipherSuite>::empty());
        assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@.take(0)));
    }
//@hint loop 0 start
    let ghost o1 = writer.out();
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 end
    proof { if self.known() { assert(writer.out() =~= o1 + self.0@[it.index@].enc()); assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@.take(it.index@ + 1))); } }
//@hint end
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <CipherSuiteVec as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    let ghost t = skip(s, 2);
    proof {
        lemma_shifts();
        lemma_len(s, 2);
        assert forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) implies s.len() >= 2 && len_value(s, 2) == flat(v.0@).len() && starts(t, flat(v.0@), false) by {
            lemma_cat(s, len_bytes(flat(v.0@).len() as int, 2), flat(v.0@));
            assert(starts(s, len_bytes(flat(v.0@).len() as int, 2), false));
        }
    }
//@loop 0
        invariant
            s.len() >= 2, self_size == len_value(s, 2), t == skip(s, 2),
            items_size == flat(items@).len(), all_fit(items@), items_size <= t.len(), items_size <= 0x200_0000,
            reader.rem() == skip(t, items_size as int),
            reader.pos() + reader.rem().len() == old(reader).pos() + s.len(),
            !old(reader).fails() ==> !reader.fails(),
            all_known(items@) ==> t.subrange(0, items_size as int) == flat(items@),
            forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) ==> len_value(s, 2) == flat(v.0@).len() && starts(t, flat(v.0@), false),
            forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
                ==> items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)),
        decreases (if items_size < self_size { self_size - items_size } else { 0int })
//@hint loop 0 before
    proof {
        assert(items@ =~= Seq::<CipherSuite>::empty());
        assert(t.subrange(0, 0) =~= flat(items@));
        assert(skip(t, 0) =~= t);
        assert(reader.rem() =~= t);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            assert(v.0@.take(0) =~= Seq::<CipherSuite>::empty());
        }
    }
//@hint loop 0 start
    let ghost items1 = items@;
    let ghost t1 = skip(t, items_size as int);
    proof {
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() < v.0@.len() && starts(t1, v.0@[items@.len() as int].enc(), false) && v.0@[items@.len() as int].known() && v.0@[items@.len() as int].fits() by {
            assert(v.0@.take(v.0@.len() as int) =~= v.0@);
            lemma_flat_next(t, v.0@, items@.len() as int);
        }
    }
//@hint loop 0 end
    proof {
        let x = items@.last();
        assert(items@ =~= items1.push(x));
        assert(x.enc().len() > 0);
        lemma_flat_push(items1, x);
        assert(flat(items@).len() == flat(items1).len() + x.enc().len());
        lemma_cat(t, flat(items1), x.enc());
        if all_known(items@) {
            assert(starts(t, flat(items1), false) && starts(t1, x.enc(), false));
            assert(t.subrange(0, items_size as int) == flat(items@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            lemma_flat_next(t, v.0@, items1.len() as int);
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let x = __ret->Ok_0;
            lemma_cat(s, len_bytes(flat(x.0@).len() as int, 2), flat(x.0@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies __ret is Ok && __ret->Ok_0.known() && __ret->Ok_0.enc() == v.enc() by {
            assert(t.subrange(0, items_size as int) == flat(v.0@));
        }
    }
//@fn <CipherSuiteVec as TlsItem>::tls_size
//@hint start
    proof { lemma_shifts(); }
//@fn <CipherSuiteVec as std :: ops :: Deref>::deref
    ensures r@ == self.0@,
//@impl <CompressionMethodVec as TlsItem>
    open spec fn fits(&self) -> bool { all_fit(self.0@) && 1 <= flat(self.0@).len() <= 255 }
    open spec fn known(&self) -> bool { all_known(self.0@) }
    open spec fn enc(&self) -> Seq<u8> { len_bytes(flat(self.0@).len() as int, 1) + flat(self.0@) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn CompressionMethodVec::new
    requires all_fit(v@), flat(v@).len() <= u64::MAX
    ensures (r is Ok) == (1 <= flat(v@).len() <= 255), r matches Ok(x) ==> x.0@ == v@,
        r matches Err(e) ==> e.kind == crate::tls_result::TlsErrorKind::DecodeError,
//@hint start
    proof { lemma_shifts(); }
//@fn CompressionMethodVec::unwrap
    ensures r@ == self.0@,
//@fn CompressionMethodVec::data_size
    requires all_fit(self.0@), flat(self.0@).len() <= u64::MAX
    ensures r == flat(self.0@).len(),
//@loop 0 it
        invariant all_fit(self.0@), flat(self.0@).len() <= u64::MAX, it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            size == flat(self.0@.take(it.index@)).len(),
//@hint loop 0 start
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 after
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
//@fn <CompressionMethodVec as TlsItem>::tls_write
//@hint start
    proof { lemma_shifts(); }
//@loop 0 it
        invariant self.fits(), it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            self.known() && !old(writer).wfails() ==> !writer.wfails(),
            self.known() ==> writer.out() == old(writer).out() + len_bytes(flat(self.0@).len() as int, 1) + flat(self.0@.take(it.index@)),
//@hint loop 0 before
    proof {
        assert(self.0@.take(0) =~= Seq::<CompressionMethod>::empty());
        assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 1) + flat(self.0@.take(0)));
    }
//@hint loop 0 start
    let ghost o1 = writer.out();
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 end
    proof { if self.known() { assert(writer.out() =~= o1 + self.0@[it.index@].enc()); assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 1) + flat(self.0@.take(it.index@ + 1))); } }
//@hint end
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <CompressionMethodVec as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    let ghost t = skip(s, 1);
    proof {
        lemma_shifts();
        lemma_len(s, 1);
        assert forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) implies s.len() >= 1 && len_value(s, 1) == flat(v.0@).len() && starts(t, flat(v.0@), false) by {
            lemma_cat(s, len_bytes(flat(v.0@).len() as int, 1), flat(v.0@));
            assert(starts(s, len_bytes(flat(v.0@).len() as int, 1), false));
        }
    }
//@loop 0
        invariant
            s.len() >= 1, self_size == len_value(s, 1), t == skip(s, 1),
            items_size == flat(items@).len(), all_fit(items@), items_size <= t.len(), items_size <= 0x200_0000,
            reader.rem() == skip(t, items_size as int),
            reader.pos() + reader.rem().len() == old(reader).pos() + s.len(),
            !old(reader).fails() ==> !reader.fails(),
            all_known(items@) ==> t.subrange(0, items_size as int) == flat(items@),
            forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) ==> len_value(s, 1) == flat(v.0@).len() && starts(t, flat(v.0@), false),
            forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
                ==> items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)),
        decreases (if items_size < self_size { self_size - items_size } else { 0int })
//@hint loop 0 before
    proof {
        assert(items@ =~= Seq::<CompressionMethod>::empty());
        assert(t.subrange(0, 0) =~= flat(items@));
        assert(skip(t, 0) =~= t);
        assert(reader.rem() =~= t);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            assert(v.0@.take(0) =~= Seq::<CompressionMethod>::empty());
        }
    }
//@hint loop 0 start
    let ghost items1 = items@;
    let ghost t1 = skip(t, items_size as int);
    proof {
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() < v.0@.len() && starts(t1, v.0@[items@.len() as int].enc(), false) && v.0@[items@.len() as int].known() && v.0@[items@.len() as int].fits() by {
            assert(v.0@.take(v.0@.len() as int) =~= v.0@);
            lemma_flat_next(t, v.0@, items@.len() as int);
        }
    }
//@hint loop 0 end
    proof {
        let x = items@.last();
        assert(items@ =~= items1.push(x));
        assert(x.enc().len() > 0);
        lemma_flat_push(items1, x);
        assert(flat(items@).len() == flat(items1).len() + x.enc().len());
        lemma_cat(t, flat(items1), x.enc());
        if all_known(items@) {
            assert(starts(t, flat(items1), false) && starts(t1, x.enc(), false));
            assert(t.subrange(0, items_size as int) == flat(items@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            lemma_flat_next(t, v.0@, items1.len() as int);
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let x = __ret->Ok_0;
            lemma_cat(s, len_bytes(flat(x.0@).len() as int, 1), flat(x.0@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies __ret is Ok && __ret->Ok_0.known() && __ret->Ok_0.enc() == v.enc() by {
            assert(t.subrange(0, items_size as int) == flat(v.0@));
        }
    }
//@fn <CompressionMethodVec as TlsItem>::tls_size
//@hint start
    proof { lemma_shifts(); }
//@fn <CompressionMethodVec as std :: ops :: Deref>::deref
    ensures r@ == self.0@,
//@impl <SessionId as TlsItem>
    open spec fn fits(&self) -> bool { all_fit(self.0@) && 0 <= flat(self.0@).len() <= 32 }
    open spec fn known(&self) -> bool { all_known(self.0@) }
    open spec fn enc(&self) -> Seq<u8> { len_bytes(flat(self.0@).len() as int, 1) + flat(self.0@) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn SessionId::new
    requires all_fit(v@), flat(v@).len() <= u64::MAX
    ensures (r is Ok) == (0 <= flat(v@).len() <= 32), r matches Ok(x) ==> x.0@ == v@,
        r matches Err(e) ==> e.kind == crate::tls_result::TlsErrorKind::DecodeError,
//@hint start
    proof { lemma_shifts(); }
//@fn SessionId::unwrap
    ensures r@ == self.0@,
//@fn SessionId::data_size
    requires all_fit(self.0@), flat(self.0@).len() <= u64::MAX
    ensures r == flat(self.0@).len(),
//@loop 0 it
        invariant all_fit(self.0@), flat(self.0@).len() <= u64::MAX, it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            size == flat(self.0@.take(it.index@)).len(),
//@hint loop 0 start
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 after
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
//@fn <SessionId as TlsItem>::tls_write
//@hint start
    proof { lemma_shifts(); }
//@loop 0 it
        invariant self.fits(), it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            self.known() && !old(writer).wfails() ==> !writer.wfails(),
            self.known() ==> writer.out() == old(writer).out() + len_bytes(flat(self.0@).len() as int, 1) + flat(self.0@.take(it.index@)),
//@hint loop 0 before
    proof {
        assert(self.0@.take(0) =~= Seq::<u8>::empty());
        assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 1) + flat(self.0@.take(0)));
    }
//@hint loop 0 start
    let ghost o1 = writer.out();
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 end
    proof { if self.known() { assert(writer.out() =~= o1 + self.0@[it.index@].enc()); assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 1) + flat(self.0@.take(it.index@ + 1))); } }
//@hint end
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <SessionId as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    let ghost t = skip(s, 1);
    proof {
        lemma_shifts();
        lemma_len(s, 1);
        assert forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) implies s.len() >= 1 && len_value(s, 1) == flat(v.0@).len() && starts(t, flat(v.0@), false) by {
            lemma_cat(s, len_bytes(flat(v.0@).len() as int, 1), flat(v.0@));
            assert(starts(s, len_bytes(flat(v.0@).len() as int, 1), false));
        }
    }
//@loop 0
        invariant
            s.len() >= 1, self_size == len_value(s, 1), t == skip(s, 1),
            items_size == flat(items@).len(), all_fit(items@), items_size <= t.len(), items_size <= 0x200_0000,
            reader.rem() == skip(t, items_size as int),
            reader.pos() + reader.rem().len() == old(reader).pos() + s.len(),
            !old(reader).fails() ==> !reader.fails(),
            all_known(items@) ==> t.subrange(0, items_size as int) == flat(items@),
            forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) ==> len_value(s, 1) == flat(v.0@).len() && starts(t, flat(v.0@), false),
            forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
                ==> items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)),
        decreases (if items_size < self_size { self_size - items_size } else { 0int })
//@hint loop 0 before
    proof {
        assert(items@ =~= Seq::<u8>::empty());
        assert(t.subrange(0, 0) =~= flat(items@));
        assert(skip(t, 0) =~= t);
        assert(reader.rem() =~= t);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            assert(v.0@.take(0) =~= Seq::<u8>::empty());
        }
    }
//@hint loop 0 start
    let ghost items1 = items@;
    let ghost t1 = skip(t, items_size as int);
    proof {
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() < v.0@.len() && starts(t1, v.0@[items@.len() as int].enc(), false) && v.0@[items@.len() as int].known() && v.0@[items@.len() as int].fits() by {
            assert(v.0@.take(v.0@.len() as int) =~= v.0@);
            lemma_flat_next(t, v.0@, items@.len() as int);
        }
    }
//@hint loop 0 end
    proof {
        let x = items@.last();
        assert(items@ =~= items1.push(x));
        assert(x.enc().len() > 0);
        lemma_flat_push(items1, x);
        assert(flat(items@).len() == flat(items1).len() + x.enc().len());
        lemma_cat(t, flat(items1), x.enc());
        if all_known(items@) {
            assert(starts(t, flat(items1), false) && starts(t1, x.enc(), false));
            assert(t.subrange(0, items_size as int) == flat(items@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            lemma_flat_next(t, v.0@, items1.len() as int);
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let x = __ret->Ok_0;
            lemma_cat(s, len_bytes(flat(x.0@).len() as int, 1), flat(x.0@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies __ret is Ok && __ret->Ok_0.known() && __ret->Ok_0.enc() == v.enc() by {
            assert(t.subrange(0, items_size as int) == flat(v.0@));
        }
    }
//@fn <SessionId as TlsItem>::tls_size
//@hint start
    proof { lemma_shifts(); }
//@fn <SessionId as std :: ops :: Deref>::deref
    ensures r@ == self.0@,
//@impl <Asn1Cert as TlsItem>
    open spec fn fits(&self) -> bool { all_fit(self.0@) && 1 <= flat(self.0@).len() <= 16777215 }
    open spec fn known(&self) -> bool { all_known(self.0@) }
    open spec fn enc(&self) -> Seq<u8> { len_bytes(flat(self.0@).len() as int, 3) + flat(self.0@) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn Asn1Cert::new
    requires all_fit(v@), flat(v@).len() <= u64::MAX
    ensures (r is Ok) == (1 <= flat(v@).len() <= 16777215), r matches Ok(x) ==> x.0@ == v@,
        r matches Err(e) ==> e.kind == crate::tls_result::TlsErrorKind::DecodeError,
//@hint start
    proof { lemma_shifts(); }
//@fn Asn1Cert::unwrap
    ensures r@ == self.0@,
//@fn Asn1Cert::data_size
    requires all_fit(self.0@), flat(self.0@).len() <= u64::MAX
    ensures r == flat(self.0@).len(),
//@loop 0 it
        invariant all_fit(self.0@), flat(self.0@).len() <= u64::MAX, it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            size == flat(self.0@.take(it.index@)).len(),
//@hint loop 0 start
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 after
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
//@fn <Asn1Cert as TlsItem>::tls_write
//@hint start
    proof { lemma_shifts(); }
//@loop 0 it
        invariant self.fits(), it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            self.known() && !old(writer).wfails() ==> !writer.wfails(),
            self.known() ==> writer.out() == old(writer).out() + len_bytes(flat(self.0@).len() as int, 3) + flat(self.0@.take(it.index@)),
//@hint loop 0 before
    proof {
        assert(self.0@.take(0) =~= Seq::<u8>::empty());
        assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 3) + flat(self.0@.take(0)));
    }
//@hint loop 0 start
    let ghost o1 = writer.out();
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 end
    proof { if self.known() { assert(writer.out() =~= o1 + self.0@[it.index@].enc()); assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 3) + flat(self.0@.take(it.index@ + 1))); } }
//@hint end
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <Asn1Cert as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    let ghost t = skip(s, 3);
    proof {
        lemma_shifts();
        lemma_len(s, 3);
        assert forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) implies s.len() >= 3 && len_value(s, 3) == flat(v.0@).len() && starts(t, flat(v.0@), false) by {
            lemma_cat(s, len_bytes(flat(v.0@).len() as int, 3), flat(v.0@));
            assert(starts(s, len_bytes(flat(v.0@).len() as int, 3), false));
        }
    }
//@loop 0
        invariant
            s.len() >= 3, self_size == len_value(s, 3), t == skip(s, 3),
            items_size == flat(items@).len(), all_fit(items@), items_size <= t.len(), items_size <= 0x200_0000,
            reader.rem() == skip(t, items_size as int),
            reader.pos() + reader.rem().len() == old(reader).pos() + s.len(),
            !old(reader).fails() ==> !reader.fails(),
            all_known(items@) ==> t.subrange(0, items_size as int) == flat(items@),
            forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) ==> len_value(s, 3) == flat(v.0@).len() && starts(t, flat(v.0@), false),
            forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
                ==> items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)),
        decreases (if items_size < self_size { self_size - items_size } else { 0int })
//@hint loop 0 before
    proof {
        assert(items@ =~= Seq::<u8>::empty());
        assert(t.subrange(0, 0) =~= flat(items@));
        assert(skip(t, 0) =~= t);
        assert(reader.rem() =~= t);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            assert(v.0@.take(0) =~= Seq::<u8>::empty());
        }
    }
//@hint loop 0 start
    let ghost items1 = items@;
    let ghost t1 = skip(t, items_size as int);
    proof {
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() < v.0@.len() && starts(t1, v.0@[items@.len() as int].enc(), false) && v.0@[items@.len() as int].known() && v.0@[items@.len() as int].fits() by {
            assert(v.0@.take(v.0@.len() as int) =~= v.0@);
            lemma_flat_next(t, v.0@, items@.len() as int);
        }
    }
//@hint loop 0 end
    proof {
        let x = items@.last();
        assert(items@ =~= items1.push(x));
        assert(x.enc().len() > 0);
        lemma_flat_push(items1, x);
        assert(flat(items@).len() == flat(items1).len() + x.enc().len());
        lemma_cat(t, flat(items1), x.enc());
        if all_known(items@) {
            assert(starts(t, flat(items1), false) && starts(t1, x.enc(), false));
            assert(t.subrange(0, items_size as int) == flat(items@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            lemma_flat_next(t, v.0@, items1.len() as int);
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let x = __ret->Ok_0;
            lemma_cat(s, len_bytes(flat(x.0@).len() as int, 3), flat(x.0@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies __ret is Ok && __ret->Ok_0.known() && __ret->Ok_0.enc() == v.enc() by {
            assert(t.subrange(0, items_size as int) == flat(v.0@));
        }
    }
//@fn <Asn1Cert as TlsItem>::tls_size
//@hint start
    proof { lemma_shifts(); }
//@fn <Asn1Cert as std :: ops :: Deref>::deref
    ensures r@ == self.0@,
//@impl <EllipticCurveList as TlsItem>
    open spec fn fits(&self) -> bool { all_fit(self.0@) && 1 <= flat(self.0@).len() <= 65535 }
    open spec fn known(&self) -> bool { all_known(self.0@) }
    open spec fn enc(&self) -> Seq<u8> { len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn EllipticCurveList::new
    requires all_fit(v@), flat(v@).len() <= u64::MAX
    ensures (r is Ok) == (1 <= flat(v@).len() <= 65535), r matches Ok(x) ==> x.0@ == v@,
        r matches Err(e) ==> e.kind == crate::tls_result::TlsErrorKind::DecodeError,
//@hint start
    proof { lemma_shifts(); }
//@fn EllipticCurveList::unwrap
    ensures r@ == self.0@,
//@fn EllipticCurveList::data_size
    requires all_fit(self.0@), flat(self.0@).len() <= u64::MAX
    ensures r == flat(self.0@).len(),
//@loop 0 it
        invariant all_fit(self.0@), flat(self.0@).len() <= u64::MAX, it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            size == flat(self.0@.take(it.index@)).len(),
//@hint loop 0 start
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 after
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
//@fn <EllipticCurveList as TlsItem>::tls_write
//@hint start
    proof { lemma_shifts(); }
//@loop 0 it
        invariant self.fits(), it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            self.known() && !old(writer).wfails() ==> !writer.wfails(),
            self.known() ==> writer.out() == old(writer).out() + len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@.take(it.index@)),
//@hint loop 0 before
    proof {
        assert(self.0@.take(0) =~= Seq::<NamedCurve>::empty());
        assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@.take(0)));
    }
//@hint loop 0 start
    let ghost o1 = writer.out();
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 end
    proof { if self.known() { assert(writer.out() =~= o1 + self.0@[it.index@].enc()); assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@.take(it.index@ + 1))); } }
//@hint end
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <EllipticCurveList as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    let ghost t = skip(s, 2);
    proof {
        lemma_shifts();
        lemma_len(s, 2);
        assert forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) implies s.len() >= 2 && len_value(s, 2) == flat(v.0@).len() && starts(t, flat(v.0@), false) by {
            lemma_cat(s, len_bytes(flat(v.0@).len() as int, 2), flat(v.0@));
            assert(starts(s, len_bytes(flat(v.0@).len() as int, 2), false));
        }
    }
//@loop 0
        invariant
            s.len() >= 2, self_size == len_value(s, 2), t == skip(s, 2),
            items_size == flat(items@).len(), all_fit(items@), items_size <= t.len(), items_size <= 0x200_0000,
            reader.rem() == skip(t, items_size as int),
            reader.pos() + reader.rem().len() == old(reader).pos() + s.len(),
            !old(reader).fails() ==> !reader.fails(),
            all_known(items@) ==> t.subrange(0, items_size as int) == flat(items@),
            forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) ==> len_value(s, 2) == flat(v.0@).len() && starts(t, flat(v.0@), false),
            forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
                ==> items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)),
        decreases (if items_size < self_size { self_size - items_size } else { 0int })
//@hint loop 0 before
    proof {
        assert(items@ =~= Seq::<NamedCurve>::empty());
        assert(t.subrange(0, 0) =~= flat(items@));
        assert(skip(t, 0) =~= t);
        assert(reader.rem() =~= t);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            assert(v.0@.take(0) =~= Seq::<NamedCurve>::empty());
        }
    }
//@hint loop 0 start
    let ghost items1 = items@;
    let ghost t1 = skip(t, items_size as int);
    proof {
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() < v.0@.len() && starts(t1, v.0@[items@.len() as int].enc(), false) && v.0@[items@.len() as int].known() && v.0@[items@.len() as int].fits() by {
            assert(v.0@.take(v.0@.len() as int) =~= v.0@);
            lemma_flat_next(t, v.0@, items@.len() as int);
        }
    }
//@hint loop 0 end
    proof {
        let x = items@.last();
        assert(items@ =~= items1.push(x));
        assert(x.enc().len() > 0);
        lemma_flat_push(items1, x);
        assert(flat(items@).len() == flat(items1).len() + x.enc().len());
        lemma_cat(t, flat(items1), x.enc());
        if all_known(items@) {
            assert(starts(t, flat(items1), false) && starts(t1, x.enc(), false));
            assert(t.subrange(0, items_size as int) == flat(items@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            lemma_flat_next(t, v.0@, items1.len() as int);
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let x = __ret->Ok_0;
            lemma_cat(s, len_bytes(flat(x.0@).len() as int, 2), flat(x.0@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies __ret is Ok && __ret->Ok_0.known() && __ret->Ok_0.enc() == v.enc() by {
            assert(t.subrange(0, items_size as int) == flat(v.0@));
        }
    }
//@fn <EllipticCurveList as TlsItem>::tls_size
//@hint start
    proof { lemma_shifts(); }
//@fn <EllipticCurveList as std :: ops :: Deref>::deref
    ensures r@ == self.0@,
//@impl <ECPointFormatList as TlsItem>
    open spec fn fits(&self) -> bool { all_fit(self.0@) && 1 <= flat(self.0@).len() <= 255 }
    open spec fn known(&self) -> bool { all_known(self.0@) }
    open spec fn enc(&self) -> Seq<u8> { len_bytes(flat(self.0@).len() as int, 1) + flat(self.0@) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn ECPointFormatList::new
    requires all_fit(v@), flat(v@).len() <= u64::MAX
    ensures (r is Ok) == (1 <= flat(v@).len() <= 255), r matches Ok(x) ==> x.0@ == v@,
        r matches Err(e) ==> e.kind == crate::tls_result::TlsErrorKind::DecodeError,
//@hint start
    proof { lemma_shifts(); }
//@fn ECPointFormatList::unwrap
    ensures r@ == self.0@,
//@fn ECPointFormatList::data_size
    requires all_fit(self.0@), flat(self.0@).len() <= u64::MAX
    ensures r == flat(self.0@).len(),
//@loop 0 it
        invariant all_fit(self.0@), flat(self.0@).len() <= u64::MAX, it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            size == flat(self.0@.take(it.index@)).len(),
//@hint loop 0 start
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 after
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
//@fn <ECPointFormatList as TlsItem>::tls_write
//@hint start
    proof { lemma_shifts(); }
//@loop 0 it
        invariant self.fits(), it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            self.known() && !old(writer).wfails() ==> !writer.wfails(),
            self.known() ==> writer.out() == old(writer).out() + len_bytes(flat(self.0@).len() as int, 1) + flat(self.0@.take(it.index@)),
//@hint loop 0 before
    proof {
        assert(self.0@.take(0) =~= Seq::<ECPointFormat>::empty());
        assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 1) + flat(self.0@.take(0)));
    }
//@hint loop 0 start
    let ghost o1 = writer.out();
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 end
    proof { if self.known() { assert(writer.out() =~= o1 + self.0@[it.index@].enc()); assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 1) + flat(self.0@.take(it.index@ + 1))); } }
//@hint end
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <ECPointFormatList as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    let ghost t = skip(s, 1);
    proof {
        lemma_shifts();
        lemma_len(s, 1);
        assert forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) implies s.len() >= 1 && len_value(s, 1) == flat(v.0@).len() && starts(t, flat(v.0@), false) by {
            lemma_cat(s, len_bytes(flat(v.0@).len() as int, 1), flat(v.0@));
            assert(starts(s, len_bytes(flat(v.0@).len() as int, 1), false));
        }
    }
//@loop 0
        invariant
            s.len() >= 1, self_size == len_value(s, 1), t == skip(s, 1),
            items_size == flat(items@).len(), all_fit(items@), items_size <= t.len(), items_size <= 0x200_0000,
            reader.rem() == skip(t, items_size as int),
            reader.pos() + reader.rem().len() == old(reader).pos() + s.len(),
            !old(reader).fails() ==> !reader.fails(),
            all_known(items@) ==> t.subrange(0, items_size as int) == flat(items@),
            forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) ==> len_value(s, 1) == flat(v.0@).len() && starts(t, flat(v.0@), false),
            forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
                ==> items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)),
        decreases (if items_size < self_size { self_size - items_size } else { 0int })
//@hint loop 0 before
    proof {
        assert(items@ =~= Seq::<ECPointFormat>::empty());
        assert(t.subrange(0, 0) =~= flat(items@));
        assert(skip(t, 0) =~= t);
        assert(reader.rem() =~= t);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            assert(v.0@.take(0) =~= Seq::<ECPointFormat>::empty());
        }
    }
//@hint loop 0 start
    let ghost items1 = items@;
    let ghost t1 = skip(t, items_size as int);
    proof {
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() < v.0@.len() && starts(t1, v.0@[items@.len() as int].enc(), false) && v.0@[items@.len() as int].known() && v.0@[items@.len() as int].fits() by {
            assert(v.0@.take(v.0@.len() as int) =~= v.0@);
            lemma_flat_next(t, v.0@, items@.len() as int);
        }
    }
//@hint loop 0 end
    proof {
        let x = items@.last();
        assert(items@ =~= items1.push(x));
        assert(x.enc().len() > 0);
        lemma_flat_push(items1, x);
        assert(flat(items@).len() == flat(items1).len() + x.enc().len());
        lemma_cat(t, flat(items1), x.enc());
        if all_known(items@) {
            assert(starts(t, flat(items1), false) && starts(t1, x.enc(), false));
            assert(t.subrange(0, items_size as int) == flat(items@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            lemma_flat_next(t, v.0@, items1.len() as int);
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let x = __ret->Ok_0;
            lemma_cat(s, len_bytes(flat(x.0@).len() as int, 1), flat(x.0@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies __ret is Ok && __ret->Ok_0.known() && __ret->Ok_0.enc() == v.enc() by {
            assert(t.subrange(0, items_size as int) == flat(v.0@));
        }
    }
//@fn <ECPointFormatList as TlsItem>::tls_size
//@hint start
    proof { lemma_shifts(); }
//@fn <ECPointFormatList as std :: ops :: Deref>::deref
    ensures r@ == self.0@,
//@impl <ExtensionVec as TlsItem>
    open spec fn fits(&self) -> bool { all_fit(self.0@) && 0 <= flat(self.0@).len() <= 65535 }
    open spec fn known(&self) -> bool { all_known(self.0@) }
    open spec fn enc(&self) -> Seq<u8> { len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn ExtensionVec::new
    requires all_fit(v@), flat(v@).len() <= u64::MAX
    ensures (r is Ok) == (0 <= flat(v@).len() <= 65535), r matches Ok(x) ==> x.0@ == v@,
        r matches Err(e) ==> e.kind == crate::tls_result::TlsErrorKind::DecodeError,
//@hint start
    proof { lemma_shifts(); }
//@fn ExtensionVec::unwrap
    ensures r@ == self.0@,
//@fn ExtensionVec::data_size
    requires all_fit(self.0@), flat(self.0@).len() <= u64::MAX
    ensures r == flat(self.0@).len(),
//@loop 0 it
        invariant all_fit(self.0@), flat(self.0@).len() <= u64::MAX, it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            size == flat(self.0@.take(it.index@)).len(),
//@hint loop 0 start
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 after
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
//@fn <ExtensionVec as TlsItem>::tls_write
//@hint start
    proof { lemma_shifts(); }
//@loop 0 it
        invariant self.fits(), it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            self.known() && !old(writer).wfails() ==> !writer.wfails(),
            self.known() ==> writer.out() == old(writer).out() + len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@.take(it.index@)),
//@hint loop 0 before
    proof {
        assert(self.0@.take(0) =~= Seq::<Extension>::empty());
        assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@.take(0)));
    }
//@hint loop 0 start
    let ghost o1 = writer.out();
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 end
    proof { if self.known() { assert(writer.out() =~= o1 + self.0@[it.index@].enc()); assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@.take(it.index@ + 1))); } }
//@hint end
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <ExtensionVec as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    let ghost t = skip(s, 2);
    proof {
        lemma_shifts();
        lemma_len(s, 2);
        assert forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) implies s.len() >= 2 && len_value(s, 2) == flat(v.0@).len() && starts(t, flat(v.0@), false) by {
            lemma_cat(s, len_bytes(flat(v.0@).len() as int, 2), flat(v.0@));
            assert(starts(s, len_bytes(flat(v.0@).len() as int, 2), false));
        }
    }
//@loop 0
        invariant
            s.len() >= 2, self_size == len_value(s, 2), t == skip(s, 2),
            items_size == flat(items@).len(), all_fit(items@), items_size <= t.len(), items_size <= 0x200_0000,
            reader.rem() == skip(t, items_size as int),
            reader.pos() + reader.rem().len() == old(reader).pos() + s.len(),
            !old(reader).fails() ==> !reader.fails(),
            all_known(items@) ==> t.subrange(0, items_size as int) == flat(items@),
            forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) ==> len_value(s, 2) == flat(v.0@).len() && starts(t, flat(v.0@), false),
            forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
                ==> items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)),
        decreases (if items_size < self_size { self_size - items_size } else { 0int })
//@hint loop 0 before
    proof {
        assert(items@ =~= Seq::<Extension>::empty());
        assert(t.subrange(0, 0) =~= flat(items@));
        assert(skip(t, 0) =~= t);
        assert(reader.rem() =~= t);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            assert(v.0@.take(0) =~= Seq::<Extension>::empty());
        }
    }
//@hint loop 0 start
    let ghost items1 = items@;
    let ghost t1 = skip(t, items_size as int);
    proof {
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() < v.0@.len() && starts(t1, v.0@[items@.len() as int].enc(), false) && v.0@[items@.len() as int].known() && v.0@[items@.len() as int].fits() by {
            assert(v.0@.take(v.0@.len() as int) =~= v.0@);
            lemma_flat_next(t, v.0@, items@.len() as int);
        }
    }
//@hint loop 0 end
    proof {
        let x = items@.last();
        assert(items@ =~= items1.push(x));
        assert(x.enc().len() > 0);
        lemma_flat_push(items1, x);
        assert(flat(items@).len() == flat(items1).len() + x.enc().len());
        lemma_cat(t, flat(items1), x.enc());
        if all_known(items@) {
            assert(starts(t, flat(items1), false) && starts(t1, x.enc(), false));
            assert(t.subrange(0, items_size as int) == flat(items@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            lemma_flat_next(t, v.0@, items1.len() as int);
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let x = __ret->Ok_0;
            lemma_cat(s, len_bytes(flat(x.0@).len() as int, 2), flat(x.0@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies __ret is Ok && __ret->Ok_0.known() && __ret->Ok_0.enc() == v.enc() by {
            assert(t.subrange(0, items_size as int) == flat(v.0@));
        }
    }
//@fn <ExtensionVec as TlsItem>::tls_size
//@hint start
    proof { lemma_shifts(); }
//@fn <ExtensionVec as std :: ops :: Deref>::deref
    ensures r@ == self.0@,
//@impl <CertificateList as TlsItem>
    open spec fn fits(&self) -> bool { all_fit(self.0@) && 0 <= flat(self.0@).len() <= 16777215 }
    open spec fn known(&self) -> bool { all_known(self.0@) }
    open spec fn enc(&self) -> Seq<u8> { len_bytes(flat(self.0@).len() as int, 3) + flat(self.0@) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn CertificateList::new
    requires all_fit(v@), flat(v@).len() <= u64::MAX
    ensures (r is Ok) == (0 <= flat(v@).len() <= 16777215), r matches Ok(x) ==> x.0@ == v@,
        r matches Err(e) ==> e.kind == crate::tls_result::TlsErrorKind::DecodeError,
//@hint start
    proof { lemma_shifts(); }
//@fn CertificateList::unwrap
    ensures r@ == self.0@,
//@fn CertificateList::data_size
    requires all_fit(self.0@), flat(self.0@).len() <= u64::MAX
    ensures r == flat(self.0@).len(),
//@loop 0 it
        invariant all_fit(self.0@), flat(self.0@).len() <= u64::MAX, it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            size == flat(self.0@.take(it.index@)).len(),
//@hint loop 0 start
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 after
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
//@fn <CertificateList as TlsItem>::tls_write
//@hint start
    proof { lemma_shifts(); }
//@loop 0 it
        invariant self.fits(), it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            self.known() && !old(writer).wfails() ==> !writer.wfails(),
            self.known() ==> writer.out() == old(writer).out() + len_bytes(flat(self.0@).len() as int, 3) + flat(self.0@.take(it.index@)),
//@hint loop 0 before
    proof {
        assert(self.0@.take(0) =~= Seq::<Asn1Cert>::empty());
        assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 3) + flat(self.0@.take(0)));
    }
//@hint loop 0 start
    let ghost o1 = writer.out();
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 end
    proof { if self.known() { assert(writer.out() =~= o1 + self.0@[it.index@].enc()); assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 3) + flat(self.0@.take(it.index@ + 1))); } }
//@hint end
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <CertificateList as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    let ghost t = skip(s, 3);
    proof {
        lemma_shifts();
        lemma_len(s, 3);
        assert forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) implies s.len() >= 3 && len_value(s, 3) == flat(v.0@).len() && starts(t, flat(v.0@), false) by {
            lemma_cat(s, len_bytes(flat(v.0@).len() as int, 3), flat(v.0@));
            assert(starts(s, len_bytes(flat(v.0@).len() as int, 3), false));
        }
    }
//@loop 0
        invariant
            s.len() >= 3, self_size == len_value(s, 3), t == skip(s, 3),
            items_size == flat(items@).len(), all_fit(items@), items_size <= t.len(), items_size <= 0x200_0000,
            reader.rem() == skip(t, items_size as int),
            reader.pos() + reader.rem().len() == old(reader).pos() + s.len(),
            !old(reader).fails() ==> !reader.fails(),
            all_known(items@) ==> t.subrange(0, items_size as int) == flat(items@),
            forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) ==> len_value(s, 3) == flat(v.0@).len() && starts(t, flat(v.0@), false),
            forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
                ==> items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)),
        decreases (if items_size < self_size { self_size - items_size } else { 0int })
//@hint loop 0 before
    proof {
        assert(items@ =~= Seq::<Asn1Cert>::empty());
        assert(t.subrange(0, 0) =~= flat(items@));
        assert(skip(t, 0) =~= t);
        assert(reader.rem() =~= t);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            assert(v.0@.take(0) =~= Seq::<Asn1Cert>::empty());
        }
    }
//@hint loop 0 start
    let ghost items1 = items@;
    let ghost t1 = skip(t, items_size as int);
    proof {
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() < v.0@.len() && starts(t1, v.0@[items@.len() as int].enc(), false) && v.0@[items@.len() as int].known() && v.0@[items@.len() as int].fits() by {
            assert(v.0@.take(v.0@.len() as int) =~= v.0@);
            lemma_flat_next(t, v.0@, items@.len() as int);
        }
    }
//@hint loop 0 end
    proof {
        let x = items@.last();
        assert(items@ =~= items1.push(x));
        assert(x.enc().len() > 0);
        lemma_flat_push(items1, x);
        assert(flat(items@).len() == flat(items1).len() + x.enc().len());
        lemma_cat(t, flat(items1), x.enc());
        if all_known(items@) {
            assert(starts(t, flat(items1), false) && starts(t1, x.enc(), false));
            assert(t.subrange(0, items_size as int) == flat(items@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            lemma_flat_next(t, v.0@, items1.len() as int);
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let x = __ret->Ok_0;
            lemma_cat(s, len_bytes(flat(x.0@).len() as int, 3), flat(x.0@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies __ret is Ok && __ret->Ok_0.known() && __ret->Ok_0.enc() == v.enc() by {
            assert(t.subrange(0, items_size as int) == flat(v.0@));
        }
    }
//@fn <CertificateList as TlsItem>::tls_size
//@hint start
    proof { lemma_shifts(); }
//@fn <CertificateList as std :: ops :: Deref>::deref
    ensures r@ == self.0@,
//@impl <CertificiateTypeVec as TlsItem>
    open spec fn fits(&self) -> bool { all_fit(self.0@) && 1 <= flat(self.0@).len() <= 255 }
    open spec fn known(&self) -> bool { all_known(self.0@) }
    open spec fn enc(&self) -> Seq<u8> { len_bytes(flat(self.0@).len() as int, 1) + flat(self.0@) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn CertificiateTypeVec::new
    requires all_fit(v@), flat(v@).len() <= u64::MAX
    ensures (r is Ok) == (1 <= flat(v@).len() <= 255), r matches Ok(x) ==> x.0@ == v@,
        r matches Err(e) ==> e.kind == crate::tls_result::TlsErrorKind::DecodeError,
//@hint start
    proof { lemma_shifts(); }
//@fn CertificiateTypeVec::unwrap
    ensures r@ == self.0@,
//@fn CertificiateTypeVec::data_size
    requires all_fit(self.0@), flat(self.0@).len() <= u64::MAX
    ensures r == flat(self.0@).len(),
//@loop 0 it
        invariant all_fit(self.0@), flat(self.0@).len() <= u64::MAX, it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            size == flat(self.0@.take(it.index@)).len(),
//@hint loop 0 start
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 after
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
//@fn <CertificiateTypeVec as TlsItem>::tls_write
//@hint start
    proof { lemma_shifts(); }
//@loop 0 it
        invariant self.fits(), it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            self.known() && !old(writer).wfails() ==> !writer.wfails(),
            self.known() ==> writer.out() == old(writer).out() + len_bytes(flat(self.0@).len() as int, 1) + flat(self.0@.take(it.index@)),
//@hint loop 0 before
    proof {
        assert(self.0@.take(0) =~= Seq::<ClientCertificateType>::empty());
        assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 1) + flat(self.0@.take(0)));
    }
//@hint loop 0 start
    let ghost o1 = writer.out();
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 end
    proof { if self.known() { assert(writer.out() =~= o1 + self.0@[it.index@].enc()); assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 1) + flat(self.0@.take(it.index@ + 1))); } }
//@hint end
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <CertificiateTypeVec as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    let ghost t = skip(s, 1);
    proof {
        lemma_shifts();
        lemma_len(s, 1);
        assert forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) implies s.len() >= 1 && len_value(s, 1) == flat(v.0@).len() && starts(t, flat(v.0@), false) by {
            lemma_cat(s, len_bytes(flat(v.0@).len() as int, 1), flat(v.0@));
            assert(starts(s, len_bytes(flat(v.0@).len() as int, 1), false));
        }
    }
//@loop 0
        invariant
            s.len() >= 1, self_size == len_value(s, 1), t == skip(s, 1),
            items_size == flat(items@).len(), all_fit(items@), items_size <= t.len(), items_size <= 0x200_0000,
            reader.rem() == skip(t, items_size as int),
            reader.pos() + reader.rem().len() == old(reader).pos() + s.len(),
            !old(reader).fails() ==> !reader.fails(),
            all_known(items@) ==> t.subrange(0, items_size as int) == flat(items@),
            forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) ==> len_value(s, 1) == flat(v.0@).len() && starts(t, flat(v.0@), false),
            forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
                ==> items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)),
        decreases (if items_size < self_size { self_size - items_size } else { 0int })
//@hint loop 0 before
    proof {
        assert(items@ =~= Seq::<ClientCertificateType>::empty());
        assert(t.subrange(0, 0) =~= flat(items@));
        assert(skip(t, 0) =~= t);
        assert(reader.rem() =~= t);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            assert(v.0@.take(0) =~= Seq::<ClientCertificateType>::empty());
        }
    }
//@hint loop 0 start
    let ghost items1 = items@;
    let ghost t1 = skip(t, items_size as int);
    proof {
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() < v.0@.len() && starts(t1, v.0@[items@.len() as int].enc(), false) && v.0@[items@.len() as int].known() && v.0@[items@.len() as int].fits() by {
            assert(v.0@.take(v.0@.len() as int) =~= v.0@);
            lemma_flat_next(t, v.0@, items@.len() as int);
        }
    }
//@hint loop 0 end
    proof {
        let x = items@.last();
        assert(items@ =~= items1.push(x));
        assert(x.enc().len() > 0);
        lemma_flat_push(items1, x);
        assert(flat(items@).len() == flat(items1).len() + x.enc().len());
        lemma_cat(t, flat(items1), x.enc());
        if all_known(items@) {
            assert(starts(t, flat(items1), false) && starts(t1, x.enc(), false));
            assert(t.subrange(0, items_size as int) == flat(items@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            lemma_flat_next(t, v.0@, items1.len() as int);
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let x = __ret->Ok_0;
            lemma_cat(s, len_bytes(flat(x.0@).len() as int, 1), flat(x.0@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies __ret is Ok && __ret->Ok_0.known() && __ret->Ok_0.enc() == v.enc() by {
            assert(t.subrange(0, items_size as int) == flat(v.0@));
        }
    }
//@fn <CertificiateTypeVec as TlsItem>::tls_size
//@hint start
    proof { lemma_shifts(); }
//@fn <CertificiateTypeVec as std :: ops :: Deref>::deref
    ensures r@ == self.0@,
//@impl <DistinguishedName as TlsItem>
    open spec fn fits(&self) -> bool { all_fit(self.0@) && 1 <= flat(self.0@).len() <= 65535 }
    open spec fn known(&self) -> bool { all_known(self.0@) }
    open spec fn enc(&self) -> Seq<u8> { len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn DistinguishedName::new
    requires all_fit(v@), flat(v@).len() <= u64::MAX
    ensures (r is Ok) == (1 <= flat(v@).len() <= 65535), r matches Ok(x) ==> x.0@ == v@,
        r matches Err(e) ==> e.kind == crate::tls_result::TlsErrorKind::DecodeError,
//@hint start
    proof { lemma_shifts(); }
//@fn DistinguishedName::unwrap
    ensures r@ == self.0@,
//@fn DistinguishedName::data_size
    requires all_fit(self.0@), flat(self.0@).len() <= u64::MAX
    ensures r == flat(self.0@).len(),
//@loop 0 it
        invariant all_fit(self.0@), flat(self.0@).len() <= u64::MAX, it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            size == flat(self.0@.take(it.index@)).len(),
//@hint loop 0 start
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 after
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
//@fn <DistinguishedName as TlsItem>::tls_write
//@hint start
    proof { lemma_shifts(); }
//@loop 0 it
        invariant self.fits(), it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            self.known() && !old(writer).wfails() ==> !writer.wfails(),
            self.known() ==> writer.out() == old(writer).out() + len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@.take(it.index@)),
//@hint loop 0 before
    proof {
        assert(self.0@.take(0) =~= Seq::<u8>::empty());
        assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@.take(0)));
    }
//@hint loop 0 start
    let ghost o1 = writer.out();
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 end
    proof { if self.known() { assert(writer.out() =~= o1 + self.0@[it.index@].enc()); assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@.take(it.index@ + 1))); } }
//@hint end
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <DistinguishedName as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    let ghost t = skip(s, 2);
    proof {
        lemma_shifts();
        lemma_len(s, 2);
        assert forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) implies s.len() >= 2 && len_value(s, 2) == flat(v.0@).len() && starts(t, flat(v.0@), false) by {
            lemma_cat(s, len_bytes(flat(v.0@).len() as int, 2), flat(v.0@));
            assert(starts(s, len_bytes(flat(v.0@).len() as int, 2), false));
        }
    }
//@loop 0
        invariant
            s.len() >= 2, self_size == len_value(s, 2), t == skip(s, 2),
            items_size == flat(items@).len(), all_fit(items@), items_size <= t.len(), items_size <= 0x200_0000,
            reader.rem() == skip(t, items_size as int),
            reader.pos() + reader.rem().len() == old(reader).pos() + s.len(),
            !old(reader).fails() ==> !reader.fails(),
            all_known(items@) ==> t.subrange(0, items_size as int) == flat(items@),
            forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) ==> len_value(s, 2) == flat(v.0@).len() && starts(t, flat(v.0@), false),
            forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
                ==> items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)),
        decreases (if items_size < self_size { self_size - items_size } else { 0int })
//@hint loop 0 before
    proof {
        assert(items@ =~= Seq::<u8>::empty());
        assert(t.subrange(0, 0) =~= flat(items@));
        assert(skip(t, 0) =~= t);
        assert(reader.rem() =~= t);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            assert(v.0@.take(0) =~= Seq::<u8>::empty());
        }
    }
//@hint loop 0 start
    let ghost items1 = items@;
    let ghost t1 = skip(t, items_size as int);
    proof {
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() < v.0@.len() && starts(t1, v.0@[items@.len() as int].enc(), false) && v.0@[items@.len() as int].known() && v.0@[items@.len() as int].fits() by {
            assert(v.0@.take(v.0@.len() as int) =~= v.0@);
            lemma_flat_next(t, v.0@, items@.len() as int);
        }
    }
//@hint loop 0 end
    proof {
        let x = items@.last();
        assert(items@ =~= items1.push(x));
        assert(x.enc().len() > 0);
        lemma_flat_push(items1, x);
        assert(flat(items@).len() == flat(items1).len() + x.enc().len());
        lemma_cat(t, flat(items1), x.enc());
        if all_known(items@) {
            assert(starts(t, flat(items1), false) && starts(t1, x.enc(), false));
            assert(t.subrange(0, items_size as int) == flat(items@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            lemma_flat_next(t, v.0@, items1.len() as int);
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let x = __ret->Ok_0;
            lemma_cat(s, len_bytes(flat(x.0@).len() as int, 2), flat(x.0@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies __ret is Ok && __ret->Ok_0.known() && __ret->Ok_0.enc() == v.enc() by {
            assert(t.subrange(0, items_size as int) == flat(v.0@));
        }
    }
//@fn <DistinguishedName as TlsItem>::tls_size
//@hint start
    proof { lemma_shifts(); }
//@fn <DistinguishedName as std :: ops :: Deref>::deref
    ensures r@ == self.0@,
//@impl <DistinguishedNameVec as TlsItem>
    open spec fn fits(&self) -> bool { all_fit(self.0@) && 0 <= flat(self.0@).len() <= 65535 }
    open spec fn known(&self) -> bool { all_known(self.0@) }
    open spec fn enc(&self) -> Seq<u8> { len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn DistinguishedNameVec::new
    requires all_fit(v@), flat(v@).len() <= u64::MAX
    ensures (r is Ok) == (0 <= flat(v@).len() <= 65535), r matches Ok(x) ==> x.0@ == v@,
        r matches Err(e) ==> e.kind == crate::tls_result::TlsErrorKind::DecodeError,
//@hint start
    proof { lemma_shifts(); }
//@fn DistinguishedNameVec::unwrap
    ensures r@ == self.0@,
//@fn DistinguishedNameVec::data_size
    requires all_fit(self.0@), flat(self.0@).len() <= u64::MAX
    ensures r == flat(self.0@).len(),
//@loop 0 it
        invariant all_fit(self.0@), flat(self.0@).len() <= u64::MAX, it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            size == flat(self.0@.take(it.index@)).len(),
//@hint loop 0 start
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 after
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
//@fn <DistinguishedNameVec as TlsItem>::tls_write
//@hint start
    proof { lemma_shifts(); }
//@loop 0 it
        invariant self.fits(), it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            self.known() && !old(writer).wfails() ==> !writer.wfails(),
            self.known() ==> writer.out() == old(writer).out() + len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@.take(it.index@)),
//@hint loop 0 before
    proof {
        assert(self.0@.take(0) =~= Seq::<DistinguishedName>::empty());
        assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@.take(0)));
    }
//@hint loop 0 start
    let ghost o1 = writer.out();
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 end
    proof { if self.known() { assert(writer.out() =~= o1 + self.0@[it.index@].enc()); assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 2) + flat(self.0@.take(it.index@ + 1))); } }
//@hint end
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <DistinguishedNameVec as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    let ghost t = skip(s, 2);
    proof {
        lemma_shifts();
        lemma_len(s, 2);
        assert forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) implies s.len() >= 2 && len_value(s, 2) == flat(v.0@).len() && starts(t, flat(v.0@), false) by {
            lemma_cat(s, len_bytes(flat(v.0@).len() as int, 2), flat(v.0@));
            assert(starts(s, len_bytes(flat(v.0@).len() as int, 2), false));
        }
    }
//@loop 0
        invariant
            s.len() >= 2, self_size == len_value(s, 2), t == skip(s, 2),
            items_size == flat(items@).len(), all_fit(items@), items_size <= t.len(), items_size <= 0x200_0000,
            reader.rem() == skip(t, items_size as int),
            reader.pos() + reader.rem().len() == old(reader).pos() + s.len(),
            !old(reader).fails() ==> !reader.fails(),
            all_known(items@) ==> t.subrange(0, items_size as int) == flat(items@),
            forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) ==> len_value(s, 2) == flat(v.0@).len() && starts(t, flat(v.0@), false),
            forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
                ==> items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)),
        decreases (if items_size < self_size { self_size - items_size } else { 0int })
//@hint loop 0 before
    proof {
        assert(items@ =~= Seq::<DistinguishedName>::empty());
        assert(t.subrange(0, 0) =~= flat(items@));
        assert(skip(t, 0) =~= t);
        assert(reader.rem() =~= t);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            assert(v.0@.take(0) =~= Seq::<DistinguishedName>::empty());
        }
    }
//@hint loop 0 start
    let ghost items1 = items@;
    let ghost t1 = skip(t, items_size as int);
    proof {
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() < v.0@.len() && starts(t1, v.0@[items@.len() as int].enc(), false) && v.0@[items@.len() as int].known() && v.0@[items@.len() as int].fits() by {
            assert(v.0@.take(v.0@.len() as int) =~= v.0@);
            lemma_flat_next(t, v.0@, items@.len() as int);
        }
    }
//@hint loop 0 end
    proof {
        let x = items@.last();
        assert(items@ =~= items1.push(x));
        assert(x.enc().len() > 0);
        lemma_flat_push(items1, x);
        assert(flat(items@).len() == flat(items1).len() + x.enc().len());
        lemma_cat(t, flat(items1), x.enc());
        if all_known(items@) {
            assert(starts(t, flat(items1), false) && starts(t1, x.enc(), false));
            assert(t.subrange(0, items_size as int) == flat(items@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            lemma_flat_next(t, v.0@, items1.len() as int);
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let x = __ret->Ok_0;
            lemma_cat(s, len_bytes(flat(x.0@).len() as int, 2), flat(x.0@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies __ret is Ok && __ret->Ok_0.known() && __ret->Ok_0.enc() == v.enc() by {
            assert(t.subrange(0, items_size as int) == flat(v.0@));
        }
    }
//@fn <DistinguishedNameVec as TlsItem>::tls_size
//@hint start
    proof { lemma_shifts(); }
//@fn <DistinguishedNameVec as std :: ops :: Deref>::deref
    ensures r@ == self.0@,
//@impl <ProtocolVersion as TlsItem>
    open spec fn fits(&self) -> bool { self.major.fits() && self.minor.fits() }
    open spec fn known(&self) -> bool { self.major.known() && self.minor.known() }
    open spec fn enc(&self) -> Seq<u8> { self.major.enc() + (self.minor.enc()) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <ProtocolVersion as TlsItem>::tls_write
//@hint end
    proof { assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <ProtocolVersion as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    proof {
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies
            starts(s, v.major.enc(), false)
            && starts(skip(s, v.major.enc().len() as int), v.minor.enc(), false) by {
            lemma_cat(s, v.major.enc(), v.minor.enc());
            assert(starts(skip(s, v.major.enc().len() as int), v.minor.enc(), false));
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let v = __ret->Ok_0;
            let s0 = s;
            let s1 = skip(s0, v.major.enc().len() as int);
            lemma_cat(s0, v.major.enc(), v.minor.enc());
        }
    }
//@fn <ProtocolVersion as TlsItem>::tls_size
//@impl <ClientHello as TlsItem>
    open spec fn fits(&self) -> bool { self.client_version.fits() && self.random.fits() && self.session_id.fits() && self.cipher_suites.fits() && self.compression_methods.fits() && self.extensions.fits() }
    open spec fn known(&self) -> bool { self.client_version.known() && self.random.known() && self.session_id.known() && self.cipher_suites.known() && self.compression_methods.known() && self.extensions.known() }
    open spec fn enc(&self) -> Seq<u8> { self.client_version.enc() + (self.random.enc() + (self.session_id.enc() + (self.cipher_suites.enc() + (self.compression_methods.enc() + (self.extensions.enc()))))) }
    open spec fn greedy() -> bool { true }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <ClientHello as TlsItem>::tls_write
//@hint end
    proof { assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <ClientHello as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    proof {
        assert forall|v: Self| #[trigger] starts(s, v.enc(), true) implies
            starts(s, v.client_version.enc(), false)
            && starts(skip(s, v.client_version.enc().len() as int), v.random.enc(), false)
            && starts(skip(skip(s, v.client_version.enc().len() as int), v.random.enc().len() as int), v.session_id.enc(), false)
            && starts(skip(skip(skip(s, v.client_version.enc().len() as int), v.random.enc().len() as int), v.session_id.enc().len() as int), v.cipher_suites.enc(), false)
            && starts(skip(skip(skip(skip(s, v.client_version.enc().len() as int), v.random.enc().len() as int), v.session_id.enc().len() as int), v.cipher_suites.enc().len() as int), v.compression_methods.enc(), false)
            && starts(skip(skip(skip(skip(skip(s, v.client_version.enc().len() as int), v.random.enc().len() as int), v.session_id.enc().len() as int), v.cipher_suites.enc().len() as int), v.compression_methods.enc().len() as int), v.extensions.enc(), true) by {
            lemma_cat(s, v.client_version.enc(), v.random.enc() + (v.session_id.enc() + (v.cipher_suites.enc() + (v.compression_methods.enc() + (v.extensions.enc())))));
            assert(starts(skip(s, v.client_version.enc().len() as int), v.random.enc() + (v.session_id.enc() + (v.cipher_suites.enc() + (v.compression_methods.enc() + (v.extensions.enc())))), true));
            lemma_cat(skip(s, v.client_version.enc().len() as int), v.random.enc(), v.session_id.enc() + (v.cipher_suites.enc() + (v.compression_methods.enc() + (v.extensions.enc()))));
            assert(starts(skip(skip(s, v.client_version.enc().len() as int), v.random.enc().len() as int), v.session_id.enc() + (v.cipher_suites.enc() + (v.compression_methods.enc() + (v.extensions.enc()))), true));
            lemma_cat(skip(skip(s, v.client_version.enc().len() as int), v.random.enc().len() as int), v.session_id.enc(), v.cipher_suites.enc() + (v.compression_methods.enc() + (v.extensions.enc())));
            assert(starts(skip(skip(skip(s, v.client_version.enc().len() as int), v.random.enc().len() as int), v.session_id.enc().len() as int), v.cipher_suites.enc() + (v.compression_methods.enc() + (v.extensions.enc())), true));
            lemma_cat(skip(skip(skip(s, v.client_version.enc().len() as int), v.random.enc().len() as int), v.session_id.enc().len() as int), v.cipher_suites.enc(), v.compression_methods.enc() + (v.extensions.enc()));
            assert(starts(skip(skip(skip(skip(s, v.client_version.enc().len() as int), v.random.enc().len() as int), v.session_id.enc().len() as int), v.cipher_suites.enc().len() as int), v.compression_methods.enc() + (v.extensions.enc()), true));
            lemma_cat(skip(skip(skip(skip(s, v.client_version.enc().len() as int), v.random.enc().len() as int), v.session_id.enc().len() as int), v.cipher_suites.enc().len() as int), v.compression_methods.enc(), v.extensions.enc());
            assert(starts(skip(skip(skip(skip(skip(s, v.client_version.enc().len() as int), v.random.enc().len() as int), v.session_id.enc().len() as int), v.cipher_suites.enc().len() as int), v.compression_methods.enc().len() as int), v.extensions.enc(), true));
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let v = __ret->Ok_0;
            let s0 = s;
            let s1 = skip(s0, v.client_version.enc().len() as int);
            let s2 = skip(s1, v.random.enc().len() as int);
            let s3 = skip(s2, v.session_id.enc().len() as int);
            let s4 = skip(s3, v.cipher_suites.enc().len() as int);
            let s5 = skip(s4, v.compression_methods.enc().len() as int);
            lemma_cat(s4, v.compression_methods.enc(), v.extensions.enc());
            lemma_cat(s3, v.cipher_suites.enc(), v.compression_methods.enc() + (v.extensions.enc()));
            lemma_cat(s2, v.session_id.enc(), v.cipher_suites.enc() + (v.compression_methods.enc() + (v.extensions.enc())));
            lemma_cat(s1, v.random.enc(), v.session_id.enc() + (v.cipher_suites.enc() + (v.compression_methods.enc() + (v.extensions.enc()))));
            lemma_cat(s0, v.client_version.enc(), v.random.enc() + (v.session_id.enc() + (v.cipher_suites.enc() + (v.compression_methods.enc() + (v.extensions.enc())))));
        }
    }
//@fn <ClientHello as TlsItem>::tls_size
//@impl <ServerHello as TlsItem>
    open spec fn fits(&self) -> bool { self.server_version.fits() && self.random.fits() && self.session_id.fits() && self.cipher_suite.fits() && self.compression_method.fits() && self.extensions.fits() }
    open spec fn known(&self) -> bool { self.server_version.known() && self.random.known() && self.session_id.known() && self.cipher_suite.known() && self.compression_method.known() && self.extensions.known() }
    open spec fn enc(&self) -> Seq<u8> { self.server_version.enc() + (self.random.enc() + (self.session_id.enc() + (self.cipher_suite.enc() + (self.compression_method.enc() + (self.extensions.enc()))))) }
    open spec fn greedy() -> bool { true }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <ServerHello as TlsItem>::tls_write
//@hint end
    proof { assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <ServerHello as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    proof {
        assert forall|v: Self| #[trigger] starts(s, v.enc(), true) implies
            starts(s, v.server_version.enc(), false)
            && starts(skip(s, v.server_version.enc().len() as int), v.random.enc(), false)
            && starts(skip(skip(s, v.server_version.enc().len() as int), v.random.enc().len() as int), v.session_id.enc(), false)
            && starts(skip(skip(skip(s, v.server_version.enc().len() as int), v.random.enc().len() as int), v.session_id.enc().len() as int), v.cipher_suite.enc(), false)
            && starts(skip(skip(skip(skip(s, v.server_version.enc().len() as int), v.random.enc().len() as int), v.session_id.enc().len() as int), v.cipher_suite.enc().len() as int), v.compression_method.enc(), false)
            && starts(skip(skip(skip(skip(skip(s, v.server_version.enc().len() as int), v.random.enc().len() as int), v.session_id.enc().len() as int), v.cipher_suite.enc().len() as int), v.compression_method.enc().len() as int), v.extensions.enc(), true) by {
            lemma_cat(s, v.server_version.enc(), v.random.enc() + (v.session_id.enc() + (v.cipher_suite.enc() + (v.compression_method.enc() + (v.extensions.enc())))));
            assert(starts(skip(s, v.server_version.enc().len() as int), v.random.enc() + (v.session_id.enc() + (v.cipher_suite.enc() + (v.compression_method.enc() + (v.extensions.enc())))), true));
            lemma_cat(skip(s, v.server_version.enc().len() as int), v.random.enc(), v.session_id.enc() + (v.cipher_suite.enc() + (v.compression_method.enc() + (v.extensions.enc()))));
            assert(starts(skip(skip(s, v.server_version.enc().len() as int), v.random.enc().len() as int), v.session_id.enc() + (v.cipher_suite.enc() + (v.compression_method.enc() + (v.extensions.enc()))), true));
            lemma_cat(skip(skip(s, v.server_version.enc().len() as int), v.random.enc().len() as int), v.session_id.enc(), v.cipher_suite.enc() + (v.compression_method.enc() + (v.extensions.enc())));
            assert(starts(skip(skip(skip(s, v.server_version.enc().len() as int), v.random.enc().len() as int), v.session_id.enc().len() as int), v.cipher_suite.enc() + (v.compression_method.enc() + (v.extensions.enc())), true));
            lemma_cat(skip(skip(skip(s, v.server_version.enc().len() as int), v.random.enc().len() as int), v.session_id.enc().len() as int), v.cipher_suite.enc(), v.compression_method.enc() + (v.extensions.enc()));
            assert(starts(skip(skip(skip(skip(s, v.server_version.enc().len() as int), v.random.enc().len() as int), v.session_id.enc().len() as int), v.cipher_suite.enc().len() as int), v.compression_method.enc() + (v.extensions.enc()), true));
            lemma_cat(skip(skip(skip(skip(s, v.server_version.enc().len() as int), v.random.enc().len() as int), v.session_id.enc().len() as int), v.cipher_suite.enc().len() as int), v.compression_method.enc(), v.extensions.enc());
            assert(starts(skip(skip(skip(skip(skip(s, v.server_version.enc().len() as int), v.random.enc().len() as int), v.session_id.enc().len() as int), v.cipher_suite.enc().len() as int), v.compression_method.enc().len() as int), v.extensions.enc(), true));
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let v = __ret->Ok_0;
            let s0 = s;
            let s1 = skip(s0, v.server_version.enc().len() as int);
            let s2 = skip(s1, v.random.enc().len() as int);
            let s3 = skip(s2, v.session_id.enc().len() as int);
            let s4 = skip(s3, v.cipher_suite.enc().len() as int);
            let s5 = skip(s4, v.compression_method.enc().len() as int);
            lemma_cat(s4, v.compression_method.enc(), v.extensions.enc());
            lemma_cat(s3, v.cipher_suite.enc(), v.compression_method.enc() + (v.extensions.enc()));
            lemma_cat(s2, v.session_id.enc(), v.cipher_suite.enc() + (v.compression_method.enc() + (v.extensions.enc())));
            lemma_cat(s1, v.random.enc(), v.session_id.enc() + (v.cipher_suite.enc() + (v.compression_method.enc() + (v.extensions.enc()))));
            lemma_cat(s0, v.server_version.enc(), v.random.enc() + (v.session_id.enc() + (v.cipher_suite.enc() + (v.compression_method.enc() + (v.extensions.enc())))));
        }
    }
//@fn <ServerHello as TlsItem>::tls_size
//@impl <CertificateRequest as TlsItem>
    open spec fn fits(&self) -> bool { self.certificate_types.fits() && self.supported_signature_algorithms.fits() && self.certificate_authorities.fits() }
    open spec fn known(&self) -> bool { self.certificate_types.known() && self.supported_signature_algorithms.known() && self.certificate_authorities.known() }
    open spec fn enc(&self) -> Seq<u8> { self.certificate_types.enc() + (self.supported_signature_algorithms.enc() + (self.certificate_authorities.enc())) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <CertificateRequest as TlsItem>::tls_write
//@hint end
    proof { assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <CertificateRequest as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    proof {
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies
            starts(s, v.certificate_types.enc(), false)
            && starts(skip(s, v.certificate_types.enc().len() as int), v.supported_signature_algorithms.enc(), false)
            && starts(skip(skip(s, v.certificate_types.enc().len() as int), v.supported_signature_algorithms.enc().len() as int), v.certificate_authorities.enc(), false) by {
            lemma_cat(s, v.certificate_types.enc(), v.supported_signature_algorithms.enc() + (v.certificate_authorities.enc()));
            assert(starts(skip(s, v.certificate_types.enc().len() as int), v.supported_signature_algorithms.enc() + (v.certificate_authorities.enc()), false));
            lemma_cat(skip(s, v.certificate_types.enc().len() as int), v.supported_signature_algorithms.enc(), v.certificate_authorities.enc());
            assert(starts(skip(skip(s, v.certificate_types.enc().len() as int), v.supported_signature_algorithms.enc().len() as int), v.certificate_authorities.enc(), false));
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let v = __ret->Ok_0;
            let s0 = s;
            let s1 = skip(s0, v.certificate_types.enc().len() as int);
            let s2 = skip(s1, v.supported_signature_algorithms.enc().len() as int);
            lemma_cat(s1, v.supported_signature_algorithms.enc(), v.certificate_authorities.enc());
            lemma_cat(s0, v.certificate_types.enc(), v.supported_signature_algorithms.enc() + (v.certificate_authorities.enc()));
        }
    }
//@fn <CertificateRequest as TlsItem>::tls_size
//@spec
pub open spec fn ext_type(x: Extension) -> u16 { match x { Extension::elliptic_curves(_) => 10, Extension::ec_point_formats(_) => 11, Extension::signature_algorithms(_) => 13, Extension::Unknown(t, _) => t } }
pub open spec fn ext_body(x: Extension) -> Seq<u8> { match x { Extension::elliptic_curves(b) => b.enc(), Extension::ec_point_formats(b) => b.enc(), Extension::signature_algorithms(b) => b.enc(), Extension::Unknown(_, d) => d@ } }
//@impl <Extension as TlsItem>
    open spec fn fits(&self) -> bool { ext_body(*self).len() <= 65535 && match *self { Extension::elliptic_curves(b) => b.fits(), Extension::ec_point_formats(b) => b.fits(), Extension::signature_algorithms(b) => b.fits(), Extension::Unknown(t, _) => t != 10 && t != 11 && t != 13 } }
    open spec fn known(&self) -> bool { match *self { Extension::elliptic_curves(b) => b.known(), Extension::ec_point_formats(b) => b.known(), Extension::signature_algorithms(b) => b.known(), Extension::Unknown(_, _) => true } }
    open spec fn enc(&self) -> Seq<u8> { be16_bytes(ext_type(*self)) + (be16_bytes(ext_body(*self).len() as u16) + ext_body(*self)) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <Extension as TlsItem>::tls_write
//@hint ret
    proof { if self.known() && __ret is Ok { assert(writer.out() =~= old(writer).out() + self.enc()); } }
//@fn <Extension as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    let ghost s1 = skip(s, 2);
    let ghost s2 = skip(s1, 2);
    proof {
        lemma_int16(s);
        lemma_int16(s1);
        assert forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false)
            implies s.len() >= 4 && be16(s, 0) == ext_type(v) && be16(s1, 0) == ext_body(v).len() && starts(s2, ext_body(v), false) by {
            let n = be16_bytes(ext_body(v).len() as u16);
            lemma_cat(s, be16_bytes(ext_type(v)), n + ext_body(v));
            assert(starts(s, be16_bytes(ext_type(v)), false));
            assert(starts(s1, n + ext_body(v), false));
            lemma_cat(s1, n, ext_body(v));
            assert(starts(s1, n, false));
        }
    }
//@hint ret
    proof {
        if __ret is Ok {
            let v = __ret->Ok_0;
            assert(reader.rem().len() <= s2.len());
            let n = be16_bytes(ext_body(v).len() as u16);
            lemma_cat(s1, n, ext_body(v));
            lemma_cat(s, be16_bytes(ext_type(v)), n + ext_body(v));
            assert(s.subrange(0, 2) == be16_bytes(ext_type(v)));
            assert(s1.subrange(0, 2) == n);
            if v.known() { assert(starts(s2, ext_body(v), false)); }
            assert(reader.rem() =~= skip(s, v.enc().len() as int));
        }
    }
//@fn <Extension as TlsItem>::tls_size
//@fn Extension::new_elliptic_curve_list
    requires all_fit(list@), flat(list@).len() <= u64::MAX
    ensures (r is Ok) == (1 <= flat(list@).len() <= 65535), r matches Ok(x) ==> x is elliptic_curves && x->elliptic_curves_0.0@ == list@,
//@fn Extension::new_ec_point_formats
    requires all_fit(list@), flat(list@).len() <= u64::MAX
    ensures (r is Ok) == (1 <= flat(list@).len() <= 255), r matches Ok(x) ==> x is ec_point_formats && x->ec_point_formats_0.0@ == list@,
//@fn Extension::new_signature_algorithm_list
    requires all_fit(list@), flat(list@).len() <= u64::MAX
    ensures (r is Ok) == (2 <= flat(list@).len() <= 65534), r matches Ok(x) ==> x is signature_algorithms && x->signature_algorithms_0.0@ == list@,
//@impl <Option < ExtensionVec > as TlsItem>
    open spec fn fits(&self) -> bool { match *self { Some(x) => x.fits(), None => true } }
    open spec fn known(&self) -> bool { match *self { Some(x) => x.known(), None => true } }
    open spec fn enc(&self) -> Seq<u8> { match *self { Some(x) => x.enc(), None => Seq::empty() } }
    open spec fn greedy() -> bool { true }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <Option < ExtensionVec > as TlsItem>::tls_write
//@hint ret
    proof { if __ret is Ok && *self is None { assert(writer.out() =~= old(writer).out() + self.enc()); } }
//@fn <Option < ExtensionVec > as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    proof {
        assert(s.subrange(0, s.len() as int) =~= s);
        assert(skip(s, s.len() as int) =~= Seq::<u8>::empty());
        assert(Seq::<u8>::empty() + s =~= s);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), true) implies v.enc() == s && (s.len() == 0 ==> v is None) && (s.len() > 0 ==> v is Some && starts(s, v->Some_0.enc(), false)) by {
            assert(s.subrange(0, v.enc().len() as int) =~= s);
        }
    }
//@fn <Option < ExtensionVec > as TlsItem>::tls_size
//@spec
pub open spec fn hs_type(x: Handshake) -> u8 { match x { Handshake::hello_request(_) => 0, Handshake::client_hello(_) => 1, Handshake::server_hello(_) => 2, Handshake::certificate(_) => 11, Handshake::server_key_exchange(_) => 12, Handshake::certificate_request(_) => 13, Handshake::server_hello_done(_) => 14, Handshake::client_key_exchange(_) => 16, Handshake::finished(_) => 20 } }
pub open spec fn hs_body(x: Handshake) -> Seq<u8> { match x { Handshake::hello_request(b) => b.enc(), Handshake::client_hello(b) => b.enc(), Handshake::server_hello(b) => b.enc(), Handshake::certificate(b) => b.enc(), Handshake::server_key_exchange(b) => b.enc(), Handshake::certificate_request(b) => b.enc(), Handshake::server_hello_done(b) => b.enc(), Handshake::client_key_exchange(b) => b.enc(), Handshake::finished(b) => b.enc() } }
pub proof fn lemma_hs_len(n: u64)
    requires n < 0x100_0000
    ensures ((n >> 16) & 0xff) as u8 == ((n as u32) >> 16) as u8, ((n >> 8) & 0xff) as u8 == ((n as u32) >> 8) as u8, (n & 0xff) as u8 == (n as u32) as u8
{
    assert(((n >> 16) & 0xff) as u8 == ((n as u32) >> 16) as u8 && ((n >> 8) & 0xff) as u8 == ((n as u32) >> 8) as u8 && (n & 0xff) as u8 == (n as u32) as u8) by (bit_vector)
        requires n < 0x100_0000;
}
pub open spec fn hs_starts(s: Seq<u8>, x: Handshake) -> bool { match x { Handshake::hello_request(b) => starts(s, b.enc(), false), Handshake::client_hello(b) => starts(s, b.enc(), true), Handshake::server_hello(b) => starts(s, b.enc(), true), Handshake::certificate(b) => starts(s, b.enc(), false), Handshake::server_key_exchange(b) => starts(s, b.enc(), true), Handshake::certificate_request(b) => starts(s, b.enc(), false), Handshake::server_hello_done(b) => starts(s, b.enc(), false), Handshake::client_key_exchange(b) => starts(s, b.enc(), true), Handshake::finished(b) => starts(s, b.enc(), false) } }
pub proof fn lemma_hs_write(o: Seq<u8>, v: Handshake)
    ensures ({
        let n = hs_body(v).len() as u32;
        ((((o + seq![hs_type(v)]) + seq![(n >> 16) as u8]) + seq![(n >> 8) as u8]) + seq![n as u8]) + hs_body(v) == o + v.enc()
    })
{
    let n = hs_body(v).len() as u32;
    let b = hs_body(v);
    assert(((((o + seq![hs_type(v)]) + seq![(n >> 16) as u8]) + seq![(n >> 8) as u8]) + seq![n as u8]) + b =~= o + (seq![hs_type(v)] + (be24_bytes(n) + b)));
}
pub proof fn lemma_hs_start(s: Seq<u8>)
    ensures
        s.len() >= 4 ==> skip(skip(skip(skip(s, 1), 1), 1), 1) == skip(skip(s, 1), 3),
        forall|v: Handshake| v.fits() && #[trigger] starts(s, v.enc(), true)
            ==> s.len() >= 4 && s[0] == hs_type(v) && be24(s, 1) == hs_body(v).len() && hs_starts(skip(skip(s, 1), 3), v),
{
    let s1 = skip(s, 1);
    let s4 = skip(s1, 3);
    if s.len() >= 4 {
        lemma_int24(s1);
        assert(skip(s1, 1) =~= skip(s, 2) && skip(skip(s1, 1), 1) =~= skip(s, 3) && skip(skip(skip(s1, 1), 1), 1) =~= s4);
        assert(be24(s1, 0) == be24(s, 1));
    }
    assert forall|v: Handshake| v.fits() && #[trigger] starts(s, v.enc(), true)
        implies s.len() >= 4 && s[0] == hs_type(v) && be24(s, 1) == hs_body(v).len() && hs_starts(skip(skip(s, 1), 3), v) by {
        let n = be24_bytes(hs_body(v).len() as u32);
        lemma_cat(s, seq![hs_type(v)], n + hs_body(v));
        assert(starts(s, seq![hs_type(v)], false));
        assert(s.subrange(0, 1)[0] == s[0] && seq![hs_type(v)][0] == hs_type(v));
        assert(starts(s1, n + hs_body(v), true));
        lemma_cat(s1, n, hs_body(v));
        assert(starts(s1, n, false));
        assert(starts(s4, hs_body(v), true));
    }
}
pub proof fn lemma_hs_end(s: Seq<u8>, v: Handshake)
    requires s.len() >= 4, s.len() == 4 + be24(s, 1), s[0] == hs_type(v), hs_body(v).len() == s.len() - 4
    ensures v.enc().len() == s.len(), hs_body(v).len() < 0x100_0000, starts(skip(skip(s, 1), 3), hs_body(v), false) ==> starts(s, v.enc(), true)
{
    let s1 = skip(s, 1);
    let s4 = skip(s1, 3);
    lemma_int24(s1);
    assert(be24(s1, 0) == be24(s, 1));
    let n = be24_bytes(hs_body(v).len() as u32);
    lemma_cat(s1, n, hs_body(v));
    lemma_cat(s, seq![hs_type(v)], n + hs_body(v));
    assert(s.subrange(0, 1) =~= seq![hs_type(v)]);
    assert(s1.subrange(0, 3) == n);
}

//@impl <Handshake as TlsItem>
    open spec fn fits(&self) -> bool { hs_body(*self).len() < 0x100_0000 && match *self { Handshake::hello_request(b) => b.fits(), Handshake::client_hello(b) => b.fits(), Handshake::server_hello(b) => b.fits(), Handshake::certificate(b) => b.fits(), Handshake::server_key_exchange(b) => b.fits(), Handshake::certificate_request(b) => b.fits(), Handshake::server_hello_done(b) => b.fits(), Handshake::client_key_exchange(b) => b.fits(), Handshake::finished(b) => b.fits() } }
    open spec fn known(&self) -> bool { match *self { Handshake::hello_request(b) => b.known(), Handshake::client_hello(b) => b.known(), Handshake::server_hello(b) => b.known(), Handshake::certificate(b) => b.known(), Handshake::server_key_exchange(b) => b.known(), Handshake::certificate_request(b) => b.known(), Handshake::server_hello_done(b) => b.known(), Handshake::client_key_exchange(b) => b.known(), Handshake::finished(b) => b.known() } }
    open spec fn enc(&self) -> Seq<u8> { seq![hs_type(*self)] + (be24_bytes(hs_body(*self).len() as u32) + hs_body(*self)) }
    open spec fn greedy() -> bool { true }
    // HandshakeBuffer passes one complete message
    open spec fn framed(s: Seq<u8>) -> bool { s.len() >= 4 && s.len() == 4 + be24(s, 1) }
//@fn <Handshake as TlsItem>::tls_write
//@hint start
    proof { lemma_hs_len(hs_body(*self).len() as u64); lemma_hs_write(old(writer).out(), *self); }
//@fn <Handshake as TlsItem>::tls_read
//@attr #[verifier::rlimit(80)]
//@hint start
    let ghost s = old(reader).rem();
    let ghost s4 = skip(skip(s, 1), 3);
    proof { lemma_hs_start(s); }
//@hint ret
    proof {
        if __ret is Ok && !old(reader).fails() && Self::framed(s) {
            let v = __ret->Ok_0;
            assert(reader.rem().len() == 0);
            assert(hs_body(v).len() == s4.len());
            lemma_hs_end(s, v);
            assert(reader.rem() =~= skip(s, v.enc().len() as int));
        }
    }
//@fn <Handshake as TlsItem>::tls_size
//@module cipher::ecdhe
//@use crate::vshim::io::{read_step, write_step, Read, Write}
//@use crate::tls_item::*
//@spec
broadcast use crate::tls_result::axiom_question;
//@impl <EcData as TlsItem>
    open spec fn fits(&self) -> bool { all_fit(self.0@) && 1 <= flat(self.0@).len() <= 255 }
    open spec fn known(&self) -> bool { all_known(self.0@) }
    open spec fn enc(&self) -> Seq<u8> { len_bytes(flat(self.0@).len() as int, 1) + flat(self.0@) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn EcData::new
    requires all_fit(v@), flat(v@).len() <= u64::MAX
    ensures (r is Ok) == (1 <= flat(v@).len() <= 255), r matches Ok(x) ==> x.0@ == v@,
        r matches Err(e) ==> e.kind == crate::tls_result::TlsErrorKind::DecodeError,
//@hint start
    proof { lemma_shifts(); }
//@fn EcData::unwrap
    ensures r@ == self.0@,
//@fn EcData::data_size
    requires all_fit(self.0@), flat(self.0@).len() <= u64::MAX
    ensures r == flat(self.0@).len(),
//@loop 0 it
        invariant all_fit(self.0@), flat(self.0@).len() <= u64::MAX, it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            size == flat(self.0@.take(it.index@)).len(),
//@hint loop 0 start
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 after
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
//@fn <EcData as TlsItem>::tls_write
//@hint start
    proof { lemma_shifts(); }
//@loop 0 it
        invariant self.fits(), it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *it.seq()[i] == self.0@[i],
            self.known() && !old(writer).wfails() ==> !writer.wfails(),
            self.known() ==> writer.out() == old(writer).out() + len_bytes(flat(self.0@).len() as int, 1) + flat(self.0@.take(it.index@)),
//@hint loop 0 before
    proof {
        assert(self.0@.take(0) =~= Seq::<u8>::empty());
        assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 1) + flat(self.0@.take(0)));
    }
//@hint loop 0 start
    let ghost o1 = writer.out();
    proof { lemma_flat_take(self.0@, it.index@); }
//@hint loop 0 end
    proof { if self.known() { assert(writer.out() =~= o1 + self.0@[it.index@].enc()); assert(writer.out() =~= old(writer).out() + len_bytes(flat(self.0@).len() as int, 1) + flat(self.0@.take(it.index@ + 1))); } }
//@hint end
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <EcData as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    let ghost t = skip(s, 1);
    proof {
        lemma_shifts();
        lemma_len(s, 1);
        assert forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) implies s.len() >= 1 && len_value(s, 1) == flat(v.0@).len() && starts(t, flat(v.0@), false) by {
            lemma_cat(s, len_bytes(flat(v.0@).len() as int, 1), flat(v.0@));
            assert(starts(s, len_bytes(flat(v.0@).len() as int, 1), false));
        }
    }
//@loop 0
        invariant
            s.len() >= 1, self_size == len_value(s, 1), t == skip(s, 1),
            items_size == flat(items@).len(), all_fit(items@), items_size <= t.len(), items_size <= 0x200_0000,
            reader.rem() == skip(t, items_size as int),
            reader.pos() + reader.rem().len() == old(reader).pos() + s.len(),
            !old(reader).fails() ==> !reader.fails(),
            all_known(items@) ==> t.subrange(0, items_size as int) == flat(items@),
            forall|v: Self| v.fits() && #[trigger] starts(s, v.enc(), false) ==> len_value(s, 1) == flat(v.0@).len() && starts(t, flat(v.0@), false),
            forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
                ==> items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)),
        decreases (if items_size < self_size { self_size - items_size } else { 0int })
//@hint loop 0 before
    proof {
        assert(items@ =~= Seq::<u8>::empty());
        assert(t.subrange(0, 0) =~= flat(items@));
        assert(skip(t, 0) =~= t);
        assert(reader.rem() =~= t);
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            assert(v.0@.take(0) =~= Seq::<u8>::empty());
        }
    }
//@hint loop 0 start
    let ghost items1 = items@;
    let ghost t1 = skip(t, items_size as int);
    proof {
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() < v.0@.len() && starts(t1, v.0@[items@.len() as int].enc(), false) && v.0@[items@.len() as int].known() && v.0@[items@.len() as int].fits() by {
            assert(v.0@.take(v.0@.len() as int) =~= v.0@);
            lemma_flat_next(t, v.0@, items@.len() as int);
        }
    }
//@hint loop 0 end
    proof {
        let x = items@.last();
        assert(items@ =~= items1.push(x));
        assert(x.enc().len() > 0);
        lemma_flat_push(items1, x);
        assert(flat(items@).len() == flat(items1).len() + x.enc().len());
        lemma_cat(t, flat(items1), x.enc());
        if all_known(items@) {
            assert(starts(t, flat(items1), false) && starts(t1, x.enc(), false));
            assert(t.subrange(0, items_size as int) == flat(items@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies items@.len() <= v.0@.len() && all_known(items@) && items_size <= flat(v.0@).len() && flat(items@) == flat(v.0@.take(items@.len() as int)) by {
            lemma_flat_next(t, v.0@, items1.len() as int);
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let x = __ret->Ok_0;
            lemma_cat(s, len_bytes(flat(x.0@).len() as int, 1), flat(x.0@));
        }
        assert forall|v: Self| !old(reader).fails() && v.fits() && v.known() && #[trigger] starts(s, v.enc(), false)
            implies __ret is Ok && __ret->Ok_0.known() && __ret->Ok_0.enc() == v.enc() by {
            assert(t.subrange(0, items_size as int) == flat(v.0@));
        }
    }
//@fn <EcData as TlsItem>::tls_size
//@hint start
    proof { lemma_shifts(); }
//@fn <EcData as std :: ops :: Deref>::deref
    ensures r@ == self.0@,
//@impl <EcCurve as TlsItem>
    open spec fn fits(&self) -> bool { self.a.fits() && self.b.fits() }
    open spec fn known(&self) -> bool { self.a.known() && self.b.known() }
    open spec fn enc(&self) -> Seq<u8> { self.a.enc() + (self.b.enc()) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <EcCurve as TlsItem>::tls_write
//@hint end
    proof { assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <EcCurve as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    proof {
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies
            starts(s, v.a.enc(), false)
            && starts(skip(s, v.a.enc().len() as int), v.b.enc(), false) by {
            lemma_cat(s, v.a.enc(), v.b.enc());
            assert(starts(skip(s, v.a.enc().len() as int), v.b.enc(), false));
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let v = __ret->Ok_0;
            let s0 = s;
            let s1 = skip(s0, v.a.enc().len() as int);
            lemma_cat(s0, v.a.enc(), v.b.enc());
        }
    }
//@fn <EcCurve as TlsItem>::tls_size
//@impl <ServerEcdhParams as TlsItem>
    open spec fn fits(&self) -> bool { self.curve_params.fits() && self.public.fits() }
    open spec fn known(&self) -> bool { self.curve_params.known() && self.public.known() }
    open spec fn enc(&self) -> Seq<u8> { self.curve_params.enc() + (self.public.enc()) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <ServerEcdhParams as TlsItem>::tls_write
//@hint end
    proof { assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <ServerEcdhParams as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    proof {
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies
            starts(s, v.curve_params.enc(), false)
            && starts(skip(s, v.curve_params.enc().len() as int), v.public.enc(), false) by {
            lemma_cat(s, v.curve_params.enc(), v.public.enc());
            assert(starts(skip(s, v.curve_params.enc().len() as int), v.public.enc(), false));
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let v = __ret->Ok_0;
            let s0 = s;
            let s1 = skip(s0, v.curve_params.enc().len() as int);
            lemma_cat(s0, v.curve_params.enc(), v.public.enc());
        }
    }
//@fn <ServerEcdhParams as TlsItem>::tls_size
//@impl <EcdheServerKeyExchange as TlsItem>
    open spec fn fits(&self) -> bool { self.params.fits() && self.signed_params.fits() }
    open spec fn known(&self) -> bool { self.params.known() && self.signed_params.known() }
    open spec fn enc(&self) -> Seq<u8> { self.params.enc() + (self.signed_params.enc()) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <EcdheServerKeyExchange as TlsItem>::tls_write
//@hint end
    proof { assert(self.known() ==> writer.out() =~= old(writer).out() + self.enc()); }
//@fn <EcdheServerKeyExchange as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    proof {
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies
            starts(s, v.params.enc(), false)
            && starts(skip(s, v.params.enc().len() as int), v.signed_params.enc(), false) by {
            lemma_cat(s, v.params.enc(), v.signed_params.enc());
            assert(starts(skip(s, v.params.enc().len() as int), v.signed_params.enc(), false));
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let v = __ret->Ok_0;
            let s0 = s;
            let s1 = skip(s0, v.params.enc().len() as int);
            lemma_cat(s0, v.params.enc(), v.signed_params.enc());
        }
    }
//@fn <EcdheServerKeyExchange as TlsItem>::tls_size
//@impl <EcParameters as TlsItem>
    open spec fn fits(&self) -> bool { match *self { EcParameters::named_curve(b) => b.fits() } }
    open spec fn known(&self) -> bool { match *self { EcParameters::named_curve(b) => b.known() } }
    open spec fn enc(&self) -> Seq<u8> { match *self { EcParameters::named_curve(b) => seq![3u8] + b.enc() } }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <EcParameters as TlsItem>::tls_write
//@hint ret
    proof { if self.known() && __ret is Ok { assert(writer.out() =~= old(writer).out() + self.enc()); } }
//@fn <EcParameters as TlsItem>::tls_read
//@hint start
    let ghost s = old(reader).rem();
    let ghost s1 = skip(s, 1);
    proof {
        if s.len() >= 1 { assert(s.subrange(0, 1) =~= seq![s[0]]); }
        assert forall|v: Self| #[trigger] starts(s, v.enc(), false) implies s.len() >= 1 && s[0] == 3 && starts(s1, v->named_curve_0.enc(), false) by {
            let b = v->named_curve_0.enc();
            lemma_cat(s, seq![3u8], b);
            assert(starts(s, seq![3u8] + b, false));
            assert(starts(s, seq![3u8], false));
            assert(s.subrange(0, 1)[0] == s[0] && seq![3u8][0] == 3u8);
        }
    }
//@hint ret
    proof {
        if __ret is Ok { let b = __ret->Ok_0->named_curve_0.enc(); lemma_cat(s, seq![3u8], b); assert(s.subrange(0, 1) == seq![3u8]); }
    }
//@fn <EcParameters as TlsItem>::tls_size
