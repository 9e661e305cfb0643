//@module util
//@spec
proof fn lemma_swap16(x: u16)
    ensures
        swap16(swap16(x)) == x,
        le16_bytes(swap16(x)) == be16_bytes(x),
{
    let y = swap16(x);
    assert(y == ((x << 8) | (x >> 8)));
    assert(((y << 8) | (y >> 8)) == x) by (bit_vector) requires y == ((x << 8) | (x >> 8));
    assert(y as u8 == (x >> 8) as u8) by (bit_vector) requires y == ((x << 8) | (x >> 8));
    assert((y >> 8) as u8 == x as u8) by (bit_vector) requires y == ((x << 8) | (x >> 8));
    assert(le16_bytes(y) =~= be16_bytes(x));
}
proof fn lemma_be16(s: Seq<u8>, k: int)
    ensures swap16(le16(s, k)) == be16(s, k),
{
    let b0 = s[k];
    let b1 = s[k + 1];
    let x = le16(s, k);
    assert(x == (b0 as u16) | ((b1 as u16) << 8));
    assert(((x << 8) | (x >> 8)) == ((b0 as u16) << 8) | (b1 as u16)) by (bit_vector) requires x == (b0 as u16) | ((b1 as u16) << 8);
}
proof fn lemma_swap32(x: u32)
    ensures
        swap32(swap32(x)) == x,
        le32_bytes(swap32(x)) == be32_bytes(x),
{
    let y = swap32(x);
    assert(y == ((x << 24) | ((x & 0xff00) << 8) | ((x >> 8) & 0xff00) | (x >> 24)));
    assert(((y << 24) | ((y & 0xff00) << 8) | ((y >> 8) & 0xff00) | (y >> 24)) == x) by (bit_vector) requires y == ((x << 24) | ((x & 0xff00) << 8) | ((x >> 8) & 0xff00) | (x >> 24));
    assert(y as u8 == (x >> 24) as u8) by (bit_vector) requires y == ((x << 24) | ((x & 0xff00) << 8) | ((x >> 8) & 0xff00) | (x >> 24));
    assert((y >> 8) as u8 == (x >> 16) as u8) by (bit_vector) requires y == ((x << 24) | ((x & 0xff00) << 8) | ((x >> 8) & 0xff00) | (x >> 24));
    assert((y >> 16) as u8 == (x >> 8) as u8) by (bit_vector) requires y == ((x << 24) | ((x & 0xff00) << 8) | ((x >> 8) & 0xff00) | (x >> 24));
    assert((y >> 24) as u8 == x as u8) by (bit_vector) requires y == ((x << 24) | ((x & 0xff00) << 8) | ((x >> 8) & 0xff00) | (x >> 24));
    assert(le32_bytes(y) =~= be32_bytes(x));
}
proof fn lemma_be32(s: Seq<u8>, k: int)
    ensures swap32(le32(s, k)) == be32(s, k),
{
    let b0 = s[k];
    let b1 = s[k + 1];
    let b2 = s[k + 2];
    let b3 = s[k + 3];
    let x = le32(s, k);
    assert(x == (b0 as u32) | ((b1 as u32) << 8) | ((b2 as u32) << 16) | ((b3 as u32) << 24));
    assert(((x << 24) | ((x & 0xff00) << 8) | ((x >> 8) & 0xff00) | (x >> 24)) == ((b0 as u32) << 24) | ((b1 as u32) << 16) | ((b2 as u32) << 8) | (b3 as u32)) by (bit_vector) requires x == (b0 as u32) | ((b1 as u32) << 8) | ((b2 as u32) << 16) | ((b3 as u32) << 24);
}
proof fn lemma_swap64(x: u64)
    ensures
        swap64(swap64(x)) == x,
        le64_bytes(swap64(x)) == be64_bytes(x),
{
    let y = swap64(x);
    assert(y == ((x << 56) | ((x & 0xff00) << 40) | ((x & 0xff_0000) << 24) | ((x & 0xff00_0000) << 8) | ((x >> 8) & 0xff00_0000) | ((x >> 24) & 0xff_0000) | ((x >> 40) & 0xff00) | (x >> 56)));
    assert(((y << 56) | ((y & 0xff00) << 40) | ((y & 0xff_0000) << 24) | ((y & 0xff00_0000) << 8) | ((y >> 8) & 0xff00_0000) | ((y >> 24) & 0xff_0000) | ((y >> 40) & 0xff00) | (y >> 56)) == x) by (bit_vector) requires y == ((x << 56) | ((x & 0xff00) << 40) | ((x & 0xff_0000) << 24) | ((x & 0xff00_0000) << 8) | ((x >> 8) & 0xff00_0000) | ((x >> 24) & 0xff_0000) | ((x >> 40) & 0xff00) | (x >> 56));
    assert(y as u8 == (x >> 56) as u8) by (bit_vector) requires y == ((x << 56) | ((x & 0xff00) << 40) | ((x & 0xff_0000) << 24) | ((x & 0xff00_0000) << 8) | ((x >> 8) & 0xff00_0000) | ((x >> 24) & 0xff_0000) | ((x >> 40) & 0xff00) | (x >> 56));
    assert((y >> 8) as u8 == (x >> 48) as u8) by (bit_vector) requires y == ((x << 56) | ((x & 0xff00) << 40) | ((x & 0xff_0000) << 24) | ((x & 0xff00_0000) << 8) | ((x >> 8) & 0xff00_0000) | ((x >> 24) & 0xff_0000) | ((x >> 40) & 0xff00) | (x >> 56));
    assert((y >> 16) as u8 == (x >> 40) as u8) by (bit_vector) requires y == ((x << 56) | ((x & 0xff00) << 40) | ((x & 0xff_0000) << 24) | ((x & 0xff00_0000) << 8) | ((x >> 8) & 0xff00_0000) | ((x >> 24) & 0xff_0000) | ((x >> 40) & 0xff00) | (x >> 56));
    assert((y >> 24) as u8 == (x >> 32) as u8) by (bit_vector) requires y == ((x << 56) | ((x & 0xff00) << 40) | ((x & 0xff_0000) << 24) | ((x & 0xff00_0000) << 8) | ((x >> 8) & 0xff00_0000) | ((x >> 24) & 0xff_0000) | ((x >> 40) & 0xff00) | (x >> 56));
    assert((y >> 32) as u8 == (x >> 24) as u8) by (bit_vector) requires y == ((x << 56) | ((x & 0xff00) << 40) | ((x & 0xff_0000) << 24) | ((x & 0xff00_0000) << 8) | ((x >> 8) & 0xff00_0000) | ((x >> 24) & 0xff_0000) | ((x >> 40) & 0xff00) | (x >> 56));
    assert((y >> 40) as u8 == (x >> 16) as u8) by (bit_vector) requires y == ((x << 56) | ((x & 0xff00) << 40) | ((x & 0xff_0000) << 24) | ((x & 0xff00_0000) << 8) | ((x >> 8) & 0xff00_0000) | ((x >> 24) & 0xff_0000) | ((x >> 40) & 0xff00) | (x >> 56));
    assert((y >> 48) as u8 == (x >> 8) as u8) by (bit_vector) requires y == ((x << 56) | ((x & 0xff00) << 40) | ((x & 0xff_0000) << 24) | ((x & 0xff00_0000) << 8) | ((x >> 8) & 0xff00_0000) | ((x >> 24) & 0xff_0000) | ((x >> 40) & 0xff00) | (x >> 56));
    assert((y >> 56) as u8 == x as u8) by (bit_vector) requires y == ((x << 56) | ((x & 0xff00) << 40) | ((x & 0xff_0000) << 24) | ((x & 0xff00_0000) << 8) | ((x >> 8) & 0xff00_0000) | ((x >> 24) & 0xff_0000) | ((x >> 40) & 0xff00) | (x >> 56));
    assert(le64_bytes(y) =~= be64_bytes(x));
}
proof fn lemma_be64(s: Seq<u8>, k: int)
    ensures swap64(le64(s, k)) == be64(s, k),
{
    let b0 = s[k];
    let b1 = s[k + 1];
    let b2 = s[k + 2];
    let b3 = s[k + 3];
    let b4 = s[k + 4];
    let b5 = s[k + 5];
    let b6 = s[k + 6];
    let b7 = s[k + 7];
    let x = le64(s, k);
    assert(x == (b0 as u64) | ((b1 as u64) << 8) | ((b2 as u64) << 16) | ((b3 as u64) << 24) | ((b4 as u64) << 32) | ((b5 as u64) << 40) | ((b6 as u64) << 48) | ((b7 as u64) << 56));
    assert(((x << 56) | ((x & 0xff00) << 40) | ((x & 0xff_0000) << 24) | ((x & 0xff00_0000) << 8) | ((x >> 8) & 0xff00_0000) | ((x >> 24) & 0xff_0000) | ((x >> 40) & 0xff00) | (x >> 56)) == ((b0 as u64) << 56) | ((b1 as u64) << 48) | ((b2 as u64) << 40) | ((b3 as u64) << 32) | ((b4 as u64) << 24) | ((b5 as u64) << 16) | ((b6 as u64) << 8) | (b7 as u64)) by (bit_vector) requires x == (b0 as u64) | ((b1 as u64) << 8) | ((b2 as u64) << 16) | ((b3 as u64) << 24) | ((b4 as u64) << 32) | ((b5 as u64) << 40) | ((b6 as u64) << 48) | ((b7 as u64) << 56);
}
pub proof fn lemma_swap()
    ensures
        forall|x: u16| #![trigger swap16(x)] swap16(swap16(x)) == x && le16_bytes(swap16(x)) == be16_bytes(x),
        forall|x: u32| #![trigger swap32(x)] swap32(swap32(x)) == x && le32_bytes(swap32(x)) == be32_bytes(x),
        forall|x: u64| #![trigger swap64(x)] swap64(swap64(x)) == x && le64_bytes(swap64(x)) == be64_bytes(x),
        forall|s: Seq<u8>, k: int| #![trigger le16(s, k)] swap16(le16(s, k)) == be16(s, k),
        forall|s: Seq<u8>, k: int| #![trigger le32(s, k)] swap32(le32(s, k)) == be32(s, k),
        forall|s: Seq<u8>, k: int| #![trigger le64(s, k)] swap64(le64(s, k)) == be64(s, k),
{
    assert forall|x: u16| #![trigger swap16(x)] swap16(swap16(x)) == x && le16_bytes(swap16(x)) == be16_bytes(x) by { lemma_swap16(x); }
    assert forall|x: u32| #![trigger swap32(x)] swap32(swap32(x)) == x && le32_bytes(swap32(x)) == be32_bytes(x) by { lemma_swap32(x); }
    assert forall|x: u64| #![trigger swap64(x)] swap64(swap64(x)) == x && le64_bytes(swap64(x)) == be64_bytes(x) by { lemma_swap64(x); }
    assert forall|s: Seq<u8>, k: int| #![trigger le16(s, k)] swap16(le16(s, k)) == be16(s, k) by { lemma_be16(s, k); }
    assert forall|s: Seq<u8>, k: int| #![trigger le32(s, k)] swap32(le32(s, k)) == be32(s, k) by { lemma_be32(s, k); }
    assert forall|s: Seq<u8>, k: int| #![trigger le64(s, k)] swap64(le64(s, k)) == be64(s, k) by { lemma_be64(s, k); }
}
proof fn lemma_diff(d: u8, a: u8, b: u8)
    ensures
        (d | (a ^ b)) == 0 <==> (d == 0 && a == b),
        (d | (d >> 4)) == 0 <==> d == 0,
{
    assert((d | (a ^ b)) == 0 <==> (d == 0 && a == b)) by (bit_vector);
    assert((d | (d >> 4)) == 0 <==> d == 0) by (bit_vector);
}
proof fn lemma_fold(d: u8)
    ensures ({
        let e = d | (d >> 4);
        let f = e | (e >> 2);
        let g = f | (f >> 1);
        (g & 1) == 0 <==> d == 0
    }),
{
    let e = d | (d >> 4);
    let f = e | (e >> 2);
    let g = f | (f >> 1);
    assert((g & 1) == 0 <==> d == 0) by (bit_vector)
        requires e == d | (d >> 4), f == e | (e >> 2), g == f | (f >> 1);
}
//@use crate::vshim::io::partly
//@use crate::vshim::io::read_step
//@use crate::vshim::io::write_step
//@movedefaults ReadExt
//@movedefaults WriteExt
//@fn crypto_compare
    requires a@.len() == b@.len(),
    ensures r == (a@ == b@),
//@loop 0
    invariant
        a@.len() == b@.len(),
        diff == 0 <==> a@.subrange(0, i as int) == b@.subrange(0, i as int),
//@hint loop 0 before
    assert(a@.subrange(0, 0) =~= b@.subrange(0, 0));
//@hint loop 0 start
    let ghost d0 = diff;
//@hint loop 0 end
    proof {
        lemma_diff(d0, a@[i as int], b@[i as int]);
        let x = a@.subrange(0, i as int);
        let y = b@.subrange(0, i as int);
        assert(a@.subrange(0, i + 1) =~= x.push(a@[i as int]));
        assert(b@.subrange(0, i + 1) =~= y.push(b@[i as int]));
        assert(x.push(a@[i as int]).drop_last() =~= x);
        assert(y.push(b@[i as int]).drop_last() =~= y);
        assert(x.push(a@[i as int]).last() == a@[i as int]);
        assert(y.push(b@[i as int]).last() == b@[i as int]);
    }
//@hint loop 0 after
    proof {
        lemma_fold(diff);
        assert(a@.subrange(0, a@.len() as int) =~= a@);
        assert(b@.subrange(0, b@.len() as int) =~= b@);
    }
//@fn u64_be_array
    ensures r@ == be64_bytes(x),
//@hint start
    proof { lemma_swap(); }
//@fn u64_le_array
    ensures r@ == le64_bytes(x),
//@fn u32_be_array
    ensures r@ == be32_bytes(x),
//@hint start
    proof { lemma_swap(); }
//@fn u32_le_array
    ensures r@ == le32_bytes(x),
//@fn read_u8
    ensures read_step(&*old(reader), &*final(reader), 1, r is Ok), r is Ok ==> r->Ok_0 == old(reader).rem()[0],
//@fn write_u8
    ensures write_step(&*old(writer), &*final(writer), seq![value], r is Ok),
//@fn read_u16
    ensures read_step(&*old(reader), &*final(reader), 2, r is Ok), r is Ok ==> r->Ok_0 == le16(old(reader).rem(), 0),
//@fn write_u16
    ensures write_step(&*old(writer), &*final(writer), le16_bytes(value), r is Ok),
//@fn read_u32
    ensures read_step(&*old(reader), &*final(reader), 4, r is Ok), r is Ok ==> r->Ok_0 == le32(old(reader).rem(), 0),
//@fn write_u32
    ensures write_step(&*old(writer), &*final(writer), le32_bytes(value), r is Ok),
//@fn read_u64
    ensures read_step(&*old(reader), &*final(reader), 8, r is Ok), r is Ok ==> r->Ok_0 == le64(old(reader).rem(), 0),
//@fn write_u64
    ensures write_step(&*old(writer), &*final(writer), le64_bytes(value), r is Ok),
//@fn ReadExt::fill_exact
    ensures
        final(buf)@.len() == old(buf)@.len(),
        read_step(&*old(self), &*final(self), old(buf)@.len() as int, r is Ok),
        r is Ok ==> final(buf)@ == old(self).rem().subrange(0, old(buf)@.len() as int),
//@attr #[verifier::exec_allows_no_decreases_clause]
//@loop 0
    invariant
        pos <= len, len == buf@.len(), len == old(buf)@.len(),
        !old(self).fails() ==> !self.fails(),
        self.pos() + self.rem().len() == old(self).pos() + old(self).rem().len(),
        pos <= old(self).rem().len(),
        self.rem() == old(self).rem().subrange(pos as int, old(self).rem().len() as int),
        buf@.subrange(0, pos as int) == old(self).rem().subrange(0, pos as int),
//@hint loop 0 before
    assert(buf@.subrange(0, 0) =~= self.rem().subrange(0, 0));
    assert(self.rem() =~= self.rem().subrange(0, self.rem().len() as int));
//@hint loop 0 start
    let ghost b0 = buf@;
    let ghost p0 = pos;
    proof { let q = self.rem(); assert(q.subrange(0, q.len() as int) =~= q); }
//@hint loop 0 end
    assert(self.rem() =~= old(self).rem().subrange(pos as int, old(self).rem().len() as int));
    assert(buf@.subrange(0, pos as int) =~= old(self).rem().subrange(0, pos as int));
//@hint loop 0 after
    assert(buf@.subrange(0, pos as int) =~= buf@);
//@fn ReadExt::read_exact
    ensures
        read_step(&*old(self), &*final(self), len as int, r is Ok),
        r is Ok ==> r->Ok_0@ == old(self).rem().subrange(0, len as int),
//@fn ReadExt::read_u8
    ensures read_step(&*old(self), &*final(self), 1, r is Ok), r is Ok ==> r->Ok_0 == old(self).rem()[0],
//@fn ReadExt::read_be_u16
    ensures read_step(&*old(self), &*final(self), 2, r is Ok), r is Ok ==> r->Ok_0 == be16(old(self).rem(), 0),
//@hint start
    proof { lemma_swap(); }
//@fn ReadExt::read_le_u16
    ensures read_step(&*old(self), &*final(self), 2, r is Ok), r is Ok ==> r->Ok_0 == le16(old(self).rem(), 0),
//@fn ReadExt::read_be_u32
    ensures read_step(&*old(self), &*final(self), 4, r is Ok), r is Ok ==> r->Ok_0 == be32(old(self).rem(), 0),
//@hint start
    proof { lemma_swap(); }
//@fn ReadExt::read_le_u32
    ensures read_step(&*old(self), &*final(self), 4, r is Ok), r is Ok ==> r->Ok_0 == le32(old(self).rem(), 0),
//@fn ReadExt::read_be_u64
    ensures read_step(&*old(self), &*final(self), 8, r is Ok), r is Ok ==> r->Ok_0 == be64(old(self).rem(), 0),
//@hint start
    proof { lemma_swap(); }
//@fn ReadExt::read_le_u64
    ensures read_step(&*old(self), &*final(self), 8, r is Ok), r is Ok ==> r->Ok_0 == le64(old(self).rem(), 0),
//@fn WriteExt::write_u8
    ensures write_step(&*old(self), &*final(self), seq![value], r is Ok),
//@fn WriteExt::write_be_u16
    ensures write_step(&*old(self), &*final(self), be16_bytes(value), r is Ok),
//@hint start
    proof { lemma_swap(); }
//@fn WriteExt::write_le_u16
    ensures write_step(&*old(self), &*final(self), le16_bytes(value), r is Ok),
//@fn WriteExt::write_be_u32
    ensures write_step(&*old(self), &*final(self), be32_bytes(value), r is Ok),
//@hint start
    proof { lemma_swap(); }
//@fn WriteExt::write_le_u32
    ensures write_step(&*old(self), &*final(self), le32_bytes(value), r is Ok),
//@fn WriteExt::write_be_u64
    ensures write_step(&*old(self), &*final(self), be64_bytes(value), r is Ok),
//@hint start
    proof { lemma_swap(); }
//@fn WriteExt::write_le_u64
    ensures write_step(&*old(self), &*final(self), le64_bytes(value), r is Ok),
