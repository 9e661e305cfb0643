//@module tls_item
//@use crate::vshim::io::{read_step, write_step, Read, Write}
//@use crate::tls_result::{TlsError, TlsErrorKind}
//@spec
broadcast use crate::tls_result::axiom_question;
// ---- big-endian presentation
pub open spec fn be24(s: Seq<u8>, k: int) -> u32 { ((s[k] as u32) << 16) | ((s[k + 1] as u32) << 8) | (s[k + 2] as u32) }
pub open spec fn be24_bytes(x: u32) -> Seq<u8> { seq![(x >> 16) as u8, (x >> 8) as u8, x as u8] }
// a length in a field of `w` bytes
pub open spec fn len_bytes(n: int, w: int) -> Seq<u8> {
    if w == 1 { seq![n as u8] } else if w == 2 { be16_bytes(n as u16) } else { be24_bytes(n as u32) }
}
pub open spec fn len_value(s: Seq<u8>, w: int) -> int {
    if w == 1 { s[0] as int } else if w == 2 { be16(s, 0) as int } else { be24(s, 0) as int }
}
// `e` is what `s` begins with (all of it, where the item extends to the end of its stream)
pub open spec fn starts(s: Seq<u8>, e: Seq<u8>, all: bool) -> bool {
    e.len() <= s.len() && s.subrange(0, e.len() as int) == e && (all ==> e.len() == s.len())
}
pub open spec fn skip(s: Seq<u8>, n: int) -> Seq<u8> { s.subrange(n, s.len() as int) }
pub open spec fn flat<T: TlsItem>(s: Seq<T>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last().enc() } }
pub open spec fn all_fit<T: TlsItem>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).fits() }
pub open spec fn all_known<T: TlsItem>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).known() }
// outcome of writing an item
pub open spec fn item_written<W: Write + ?Sized>(o: &W, f: &W, e: Seq<u8>, r: TlsResult<()>) -> bool {
    &&& !o.wfails() ==> !f.wfails() && r is Ok
    &&& r is Ok ==> f.out() == o.out() + e
    &&& r matches Err(x) ==> x.kind == TlsErrorKind::IoFailure
}
// how parsing may fail
pub open spec fn parse_err(k: TlsErrorKind) -> bool {
    match k { TlsErrorKind::IoFailure | TlsErrorKind::DecodeError | TlsErrorKind::UnexpectedMessage | TlsErrorKind::IllegalParameter | TlsErrorKind::InternalError => true, _ => false }
}
pub proof fn lemma_cat(s: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    ensures
        a.len() <= s.len() && b.len() <= s.len() - a.len() ==> skip(skip(s, a.len() as int), b.len() as int) == skip(s, (a + b).len() as int),
        starts(s, a, false) && starts(skip(s, a.len() as int), b, false) ==> starts(s, a + b, false),
        forall|all: bool| #![trigger starts(s, a + b, all)] starts(s, a + b, all) ==> starts(s, a, false) && starts(skip(s, a.len() as int), b, all),
{
    if a.len() <= s.len() && b.len() <= s.len() - a.len() {
        assert(skip(skip(s, a.len() as int), b.len() as int) =~= skip(s, (a + b).len() as int));
    }
    if starts(s, a, false) && starts(skip(s, a.len() as int), b, false) {
        assert(s.subrange(0, (a + b).len() as int) =~= s.subrange(0, a.len() as int) + skip(s, a.len() as int).subrange(0, b.len() as int));
    }
    assert forall|all: bool| #![trigger starts(s, a + b, all)] starts(s, a + b, all) implies starts(s, a, false) && starts(skip(s, a.len() as int), b, all) by {
        assert(s.subrange(0, a.len() as int) =~= (a + b).subrange(0, a.len() as int));
        assert((a + b).subrange(0, a.len() as int) =~= a);
        assert(skip(s, a.len() as int).subrange(0, b.len() as int) =~= s.subrange(0, (a + b).len() as int).subrange(a.len() as int, (a + b).len() as int));
        assert((a + b).subrange(a.len() as int, (a + b).len() as int) =~= b);
    }
}
pub proof fn lemma_flat_push<T: TlsItem>(s: Seq<T>, x: T)
    ensures flat(s.push(x)) == flat(s) + x.enc(), all_fit(s) && x.fits() ==> all_fit(s.push(x)), all_known(s.push(x)) <==> all_known(s) && x.known()
{
    assert(s.push(x).drop_last() =~= s);
    if all_known(s.push(x)) {
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).known() by { assert(s.push(x)[i] == s[i]); }
        assert(s.push(x)[s.len() as int] == x);
    }
}
pub proof fn lemma_flat_first<T: TlsItem>(s: Seq<T>)
    requires s.len() > 0
    ensures flat(s) == s[0].enc() + flat(s.subrange(1, s.len() as int))
    decreases s.len()
{
    let t = s.subrange(1, s.len() as int);
    if s.len() == 1 {
        assert(s.drop_last() =~= Seq::<T>::empty());
        assert(t =~= Seq::<T>::empty());
        assert(flat(s) =~= s[0].enc());
        assert(s[0].enc() + flat(t) =~= s[0].enc());
    } else {
        lemma_flat_first(s.drop_last());
        assert(s.drop_last().subrange(1, s.len() - 1) =~= t.drop_last());
        assert(flat(s) =~= s[0].enc() + flat(t));
    }
}
pub proof fn lemma_flat_bytes(s: Seq<u8>)
    ensures flat(s) == s, all_fit(s), all_known(s)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_flat_bytes(s.drop_last());
        assert(flat(s) =~= s);
    } else {
        assert(s =~= Seq::<u8>::empty());
    }
}
pub proof fn lemma_flat_take<T: TlsItem>(s: Seq<T>, k: int)
    requires 0 <= k < s.len()
    ensures flat(s.take(k + 1)) == flat(s.take(k)) + s[k].enc(), flat(s) == flat(s.take(k + 1)) + flat(s.skip(k + 1)), flat(s.take(k + 1)).len() <= flat(s).len()
    decreases s.len() - k
{
    lemma_flat_push(s.take(k), s[k]);
    assert(s.take(k + 1) =~= s.take(k).push(s[k]));
    if k + 1 == s.len() {
        assert(s.take(k + 1) =~= s);
        assert(s.skip(k + 1) =~= Seq::<T>::empty());
        assert(flat(s) =~= flat(s) + Seq::<u8>::empty());
    } else {
        lemma_flat_take(s, k + 1);
        let t = s.skip(k + 1);
        lemma_flat_first(t);
        assert(t.subrange(1, t.len() as int) =~= s.skip(k + 2));
        assert(flat(s.take(k + 1)) + flat(t) =~= flat(s.take(k + 2)) + flat(s.skip(k + 2)));
    }
}
// what follows the first k items of a stream that begins with the items of v
pub proof fn lemma_flat_next<T: TlsItem>(t: Seq<u8>, v: Seq<T>, k: int)
    requires 0 <= k < v.len(), starts(t, flat(v), false)
    ensures starts(skip(t, flat(v.take(k)).len() as int), v[k].enc(), false), flat(v.take(k + 1)) == flat(v.take(k)) + v[k].enc(), flat(v.take(k + 1)).len() <= flat(v).len()
{
    lemma_flat_take(v, k);
    let (a, b, c) = (flat(v.take(k)), v[k].enc(), flat(v.skip(k + 1)));
    assert(flat(v) =~= a + (b + c));
    lemma_cat(t, a, b + c);
    lemma_cat(skip(t, a.len() as int), b, c);
}
pub proof fn lemma_shifts()
    ensures 1u64 << 8u64 == 0x100, 1u64 << 16u64 == 0x1_0000, 1u64 << 24u64 == 0x100_0000, 1u64 << 32u64 == 0x1_0000_0000
{
    assert(1u64 << 8u64 == 0x100 && 1u64 << 16u64 == 0x1_0000 && 1u64 << 24u64 == 0x100_0000 && 1u64 << 32u64 == 0x1_0000_0000) by (bit_vector);
}
proof fn lemma_be16_bits(x: u16, a: u8, b: u8)
    ensures ((((x >> 8) as u8) as u16) << 8) | ((x as u8) as u16) == x,
        (((((a as u16) << 8) | (b as u16)) >> 8) as u8) == a, ((((a as u16) << 8) | (b as u16)) as u8) == b,
{
    assert(((((x >> 8) as u8) as u16) << 8) | ((x as u8) as u16) == x) by (bit_vector);
    assert((((((a as u16) << 8) | (b as u16)) >> 8) as u8) == a) by (bit_vector);
    assert(((((a as u16) << 8) | (b as u16)) as u8) == b) by (bit_vector);
}
proof fn lemma_be24_bits(x: u32, a: u8, b: u8, c: u8)
    ensures x < 0x100_0000 ==> ((((x >> 16) as u8) as u32) << 16) | ((((x >> 8) as u8) as u32) << 8) | ((x as u8) as u32) == x,
        ({ let y = ((a as u32) << 16) | ((b as u32) << 8) | (c as u32); (y >> 16) as u8 == a && (y >> 8) as u8 == b && y as u8 == c && y < 0x100_0000 }),
{
    assert(x < 0x100_0000 ==> ((((x >> 16) as u8) as u32) << 16) | ((((x >> 8) as u8) as u32) << 8) | ((x as u8) as u32) == x) by (bit_vector);
    let y = ((a as u32) << 16) | ((b as u32) << 8) | (c as u32);
    assert((y >> 16) as u8 == a && (y >> 8) as u8 == b && y as u8 == c && y < 0x100_0000) by (bit_vector)
        requires y == ((a as u32) << 16) | ((b as u32) << 8) | (c as u32);
}
// a stream that begins with an encoded integer, and back
pub proof fn lemma_int16(s: Seq<u8>)
    ensures
        s.len() >= 2 ==> s.subrange(0, 2) == be16_bytes(be16(s, 0)),
        forall|x: u16, t: bool| #[trigger] starts(s, be16_bytes(x), t) ==> s.len() >= 2 && be16(s, 0) == x,
{
    if s.len() >= 2 { lemma_be16_bits(0, s[0], s[1]); assert(s.subrange(0, 2) =~= be16_bytes(be16(s, 0))); }
    assert forall|x: u16, t: bool| #[trigger] starts(s, be16_bytes(x), t) implies s.len() >= 2 && be16(s, 0) == x by {
        let z = s.subrange(0, 2);
        assert(z == be16_bytes(x));
        assert(z[0] == s[0] && z[1] == s[1]);
        lemma_be16_bits(x, 0, 0);
    }
}
pub proof fn lemma_int24(s: Seq<u8>)
    ensures
        s.len() >= 3 ==> s.subrange(0, 3) == be24_bytes(be24(s, 0)) && be24(s, 0) < 0x100_0000,
        forall|x: u32, t: bool| x < 0x100_0000 && #[trigger] starts(s, be24_bytes(x), t) ==> s.len() >= 3 && be24(s, 0) == x,
{
    if s.len() >= 3 { lemma_be24_bits(0, s[0], s[1], s[2]); assert(s.subrange(0, 3) =~= be24_bytes(be24(s, 0))); }
    assert forall|x: u32, t: bool| x < 0x100_0000 && #[trigger] starts(s, be24_bytes(x), t) implies s.len() >= 3 && be24(s, 0) == x by {
        let z = s.subrange(0, 3);
        assert(z == be24_bytes(x));
        assert(z[0] == s[0] && z[1] == s[1] && z[2] == s[2]);
        lemma_be24_bits(x, 0, 0, 0);
    }
}
pub proof fn lemma_len(s: Seq<u8>, w: int)
    requires w == 1 || w == 2 || w == 3
    ensures
        s.len() >= w ==> s.subrange(0, w) == len_bytes(len_value(s, w), w) && 0 <= len_value(s, w) < (if w == 1 { 0x100int } else if w == 2 { 0x1_0000int } else { 0x100_0000int }),
        forall|n: int, t: bool| 0 <= n < (if w == 1 { 0x100int } else if w == 2 { 0x1_0000int } else { 0x100_0000int }) && #[trigger] starts(s, len_bytes(n, w), t)
            ==> s.len() >= w && len_value(s, w) == n,
{
    lemma_int16(s);
    lemma_int24(s);
    if w == 1 && s.len() >= 1 { assert(s.subrange(0, 1) =~= seq![s[0]]); }
    assert forall|n: int, t: bool| 0 <= n < (if w == 1 { 0x100int } else if w == 2 { 0x1_0000int } else { 0x100_0000int }) && #[trigger] starts(s, len_bytes(n, w), t)
        implies s.len() >= w && len_value(s, w) == n by {
        if w == 1 { assert(s.subrange(0, 1)[0] == s[0]); assert(len_bytes(n, w)[0] == n as u8); }
        else if w == 2 { assert(starts(s, be16_bytes(n as u16), t)); }
        else { assert(starts(s, be24_bytes(n as u32), t)); }
    }
}
pub proof fn lemma_int32(s: Seq<u8>)
    ensures
        s.len() >= 4 ==> s.subrange(0, 4) == be32_bytes(be32(s, 0)),
        forall|x: u32, t: bool| #[trigger] starts(s, be32_bytes(x), t) ==> s.len() >= 4 && be32(s, 0) == x,
{
    if s.len() >= 4 {
        let (a, b, c, d) = (s[0], s[1], s[2], s[3]);
        let y = be32(s, 0);
        assert((y >> 24) as u8 == a && (y >> 16) as u8 == b && (y >> 8) as u8 == c && y as u8 == d) by (bit_vector)
            requires y == ((a as u32) << 24) | ((b as u32) << 16) | ((c as u32) << 8) | (d as u32);
        assert(s.subrange(0, 4) =~= be32_bytes(y));
    }
    assert forall|x: u32, t: bool| #[trigger] starts(s, be32_bytes(x), t) implies s.len() >= 4 && be32(s, 0) == x by {
        let z = s.subrange(0, 4);
        assert(z == be32_bytes(x));
        assert(z[0] == s[0] && z[1] == s[1] && z[2] == s[2] && z[3] == s[3]);
        let (a, b, c, d) = ((x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8);
        assert(x == ((a as u32) << 24) | ((b as u32) << 16) | ((c as u32) << 8) | (d as u32)) by (bit_vector)
            requires a == (x >> 24) as u8, b == (x >> 16) as u8, c == (x >> 8) as u8, d == x as u8;
    }
}
pub proof fn lemma_int64(s: Seq<u8>)
    ensures
        s.len() >= 8 ==> s.subrange(0, 8) == be64_bytes(be64(s, 0)),
        forall|x: u64, t: bool| #[trigger] starts(s, be64_bytes(x), t) ==> s.len() >= 8 && be64(s, 0) == x,
{
    if s.len() >= 8 {
        let (a, b, c, d, e, f, g, h) = (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]);
        let y = be64(s, 0);
        assert((y >> 56) as u8 == a && (y >> 48) as u8 == b && (y >> 40) as u8 == c && (y >> 32) as u8 == d
            && (y >> 24) as u8 == e && (y >> 16) as u8 == f && (y >> 8) as u8 == g && y as u8 == h) by (bit_vector)
            requires y == ((a as u64) << 56) | ((b as u64) << 48) | ((c as u64) << 40) | ((d as u64) << 32) | ((e as u64) << 24) | ((f as u64) << 16) | ((g as u64) << 8) | (h as u64);
        assert(s.subrange(0, 8) =~= be64_bytes(y));
    }
    assert forall|x: u64, t: bool| #[trigger] starts(s, be64_bytes(x), t) implies s.len() >= 8 && be64(s, 0) == x by {
        let z = s.subrange(0, 8);
        assert(z == be64_bytes(x));
        assert(z[0] == s[0] && z[1] == s[1] && z[2] == s[2] && z[3] == s[3] && z[4] == s[4] && z[5] == s[5] && z[6] == s[6] && z[7] == s[7]);
        let (a, b, c, d, e, f, g, h) = ((x >> 56) as u8, (x >> 48) as u8, (x >> 40) as u8, (x >> 32) as u8, (x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8);
        assert(x == ((a as u64) << 56) | ((b as u64) << 48) | ((c as u64) << 40) | ((d as u64) << 32) | ((e as u64) << 24) | ((f as u64) << 16) | ((g as u64) << 8) | (h as u64)) by (bit_vector)
            requires a == (x >> 56) as u8, b == (x >> 48) as u8, c == (x >> 40) as u8, d == (x >> 32) as u8, e == (x >> 24) as u8, f == (x >> 16) as u8, g == (x >> 8) as u8, h == x as u8;
    }
}
//@trait TlsItem
    // the parts fit their length fields and vector bounds
    spec fn fits(&self) -> bool;
    // no cipher suite outside the library's table
    spec fn known(&self) -> bool;
    // the RFC 5246 / 4492 encoding
    spec fn enc(&self) -> Seq<u8>;
    // extends to the end of its stream
    spec fn greedy() -> bool;
    // what the enclosing layer guarantees about the stream
    spec fn framed(s: Seq<u8>) -> bool;
//@fn TlsItem::tls_write
    requires self.fits()
    ensures self.known() ==> item_written(&*old(writer), &*final(writer), self.enc(), r),
//@fn TlsItem::tls_read
    ensures
        !old(reader).fails() ==> !final(reader).fails(),
        final(reader).pos() + final(reader).rem().len() == old(reader).pos() + old(reader).rem().len(),
        r matches Ok(v) ==> Self::framed(old(reader).rem()) && (Self::greedy() ==> !old(reader).fails()) ==> {
            &&& v.fits()
            &&& v.enc().len() <= old(reader).rem().len()
            &&& Self::greedy() ==> v.enc().len() == old(reader).rem().len()
            &&& final(reader).rem() == skip(old(reader).rem(), v.enc().len() as int)
            &&& v.known() ==> old(reader).rem().subrange(0, v.enc().len() as int) == v.enc()
        },
        forall|v: Self| !old(reader).fails() && Self::framed(old(reader).rem()) && v.fits() && v.known() && #[trigger] starts(old(reader).rem(), v.enc(), Self::greedy())
            ==> r is Ok && r->Ok_0.known() && r->Ok_0.enc() == v.enc(),
        r matches Err(e) ==> parse_err(e.kind),
//@fn TlsItem::tls_size
    requires self.fits()
    ensures r == self.enc().len(),
//@impl <u8 as TlsItem>
    open spec fn fits(&self) -> bool { true }
    open spec fn known(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { seq![*self] }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <u8 as TlsItem>::tls_write
//@fn <u8 as TlsItem>::tls_read
//@hint start
    proof { let s = old(reader).rem(); lemma_len(s, 1); assert(forall|x: u8| #[trigger] x.enc() == len_bytes(x as int, 1)); assert(s.len() >= 1 ==> len_bytes(s[0] as int, 1) == seq![s[0]]); }
//@fn <u8 as TlsItem>::tls_size
//@impl <u16 as TlsItem>
    open spec fn fits(&self) -> bool { true }
    open spec fn known(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { be16_bytes(*self) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <u16 as TlsItem>::tls_write
//@fn <u16 as TlsItem>::tls_read
//@hint start
    proof { lemma_int16(old(reader).rem()); }
//@fn <u16 as TlsItem>::tls_size
//@impl <u32 as TlsItem>
    open spec fn fits(&self) -> bool { true }
    open spec fn known(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { be32_bytes(*self) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <u32 as TlsItem>::tls_write
//@fn <u32 as TlsItem>::tls_read
//@hint start
    proof { lemma_int32(old(reader).rem()); }
//@fn <u32 as TlsItem>::tls_size
//@impl <u64 as TlsItem>
    open spec fn fits(&self) -> bool { true }
    open spec fn known(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { be64_bytes(*self) }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <u64 as TlsItem>::tls_write
//@fn <u64 as TlsItem>::tls_read
//@hint start
    proof { lemma_int64(old(reader).rem()); }
//@fn <u64 as TlsItem>::tls_size
//@impl <DummyItem as TlsItem>
    open spec fn fits(&self) -> bool { true }
    open spec fn known(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { Seq::empty() }
    open spec fn greedy() -> bool { false }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <DummyItem as TlsItem>::tls_write
//@hint start
    assert(old(_writer).out() + Seq::<u8>::empty() =~= old(_writer).out());
//@fn <DummyItem as TlsItem>::tls_read
//@hint start
    assert(skip(old(_reader).rem(), 0) =~= old(_reader).rem());
    assert(old(_reader).rem().subrange(0, 0) =~= Seq::<u8>::empty());
//@fn <DummyItem as TlsItem>::tls_size
//@impl <ObscureData as TlsItem>
    open spec fn fits(&self) -> bool { true }
    open spec fn known(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { self.0@ }
    open spec fn greedy() -> bool { true }
    open spec fn framed(s: Seq<u8>) -> bool { true }
//@fn <ObscureData as TlsItem>::tls_write
//@fn <ObscureData as TlsItem>::tls_read
//@hint start
    proof {
        let s = old(reader).rem();
        assert(skip(s, s.len() as int) =~= Seq::<u8>::empty());
        assert(s.subrange(0, s.len() as int) =~= s);
        assert(Seq::<u8>::empty() + s =~= s);
    }
//@fn <ObscureData as TlsItem>::tls_size
//@fn ObscureData::new
    ensures r.0@ == data@,
//@fn ObscureData::unwrap
    ensures r@ == self.0@,
//@fn <ObscureData as std :: ops :: Deref>::deref
    ensures r@ == self.0@,
