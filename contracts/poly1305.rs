//@module crypto::poly1305
//@spec
// RFC 7539, section 2.5
pub open spec fn two128() -> int { 0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int }
pub open spec fn p1305() -> int { 0x4_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int - 5 }
pub open spec fn clamp(r: Seq<u8>) -> Seq<u8> {
    Seq::new(16, |i: int| if i == 3 || i == 7 || i == 11 || i == 15 { r[i] & 15 } else if i == 4 || i == 8 || i == 12 { r[i] & 252 } else { r[i] })
}
// the accumulator after the first n bytes (n a multiple of 16, or all of them)
#[verifier::opaque]
pub open spec fn poly_acc(msg: Seq<u8>, r: Seq<u8>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else {
        let k = 16 * ((n - 1) / 16);
        (poly_acc(msg, r, k) + le_nat(msg.subrange(k, n).push(1))) * le_nat(clamp(r)) % p1305()
    }
}
pub open spec fn poly_tag(msg: Seq<u8>, r: Seq<u8>, s: Seq<u8>) -> Seq<u8> {
    to_le(((poly_acc(msg, r, msg.len() as int) + le_nat(s)) % two128()) as nat, 16)
}
proof fn lemma_to_le_len(n: nat, k: nat)
    ensures to_le(n, k).len() == k
    decreases k
{
    if k > 0 { lemma_to_le_len(n / 256, (k - 1) as nat); }
}
pub proof fn lemma_tag_len(msg: Seq<u8>, r: Seq<u8>, s: Seq<u8>)
    ensures poly_tag(msg, r, s).len() == 16
{
    lemma_to_le_len(((poly_acc(msg, r, msg.len() as int) + le_nat(s)) % two128()) as nat, 16);
}
pub open spec fn val5(h: Seq<u32>) -> int { h[0] + h[1] * 0x4000000 + h[2] * 0x10000000000000 + h[3] * 0x40000000000000000000 + h[4] * 0x100000000000000000000000000 }
pub open spec fn r_ok(r: Seq<u32>) -> bool {
    r[0] <= 0x3ff_ffff && r[1] <= 0x3ff_ff03 && r[2] <= 0x3ff_c0ff && r[3] <= 0x3f0_3fff && r[4] <= 0xf_ffff
}
pub open spec fn h_ok(h: Seq<u32>) -> bool {
    h[0] <= 0x3ff_ffff && h[1] <= 0x3ff_ffff + 0x100 && h[2] <= 0x3ff_ffff && h[3] <= 0x3ff_ffff && h[4] <= 0x3ff_ffff
}
proof fn lemma_le16(b: Seq<u8>)
    requires b.len() == 16
    ensures le_nat(b) == b[0] + b[1] * 0x100 + b[2] * 0x10000 + b[3] * 0x1000000 + b[4] * 0x100000000 + b[5] * 0x10000000000 + b[6] * 0x1000000000000 + b[7] * 0x100000000000000 + b[8] * 0x10000000000000000 + b[9] * 0x1000000000000000000 + b[10] * 0x100000000000000000000 + b[11] * 0x10000000000000000000000 + b[12] * 0x1000000000000000000000000 + b[13] * 0x100000000000000000000000000 + b[14] * 0x10000000000000000000000000000 + b[15] * (0x100000000000000 * 0x1_0000_0000_0000_0000int)
{ reveal_with_fuel(le_from, 18); }
proof fn lemma_le17(b: Seq<u8>)
    requires b.len() == 17
    ensures le_nat(b) == b[0] + b[1] * 0x100 + b[2] * 0x10000 + b[3] * 0x1000000 + b[4] * 0x100000000 + b[5] * 0x10000000000 + b[6] * 0x1000000000000 + b[7] * 0x100000000000000 + b[8] * 0x10000000000000000 + b[9] * 0x1000000000000000000 + b[10] * 0x100000000000000000000 + b[11] * 0x10000000000000000000000 + b[12] * 0x1000000000000000000000000 + b[13] * 0x100000000000000000000000000 + b[14] * 0x10000000000000000000000000000 + b[15] * (0x100000000000000 * 0x1_0000_0000_0000_0000int) + b[16] * (0x10000000000000000 * 0x1_0000_0000_0000_0000int)
{ reveal_with_fuel(le_from, 19); }
spec fn w4(a: u8, b: u8, c: u8, d: u8) -> u32 { (a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24) }
proof fn lemma_limb_bits(a: u8, b: u8, c: u8, d: u8)
    ensures
        (w4(a, b, c, d) & 0x3ff_ffff) == a + 256 * b + 65536 * c + 0x100_0000 * (d % 4),
        ((w4(a, b, c, d) >> 2) & 0x3ff_ffff) == a / 4 + 64 * b + 0x4000 * c + 0x40_0000 * (d % 16),
        ((w4(a, b, c, d) >> 4) & 0x3ff_ffff) == a / 16 + 16 * b + 0x1000 * c + 0x10_0000 * (d % 64),
        ((w4(a, b, c, d) >> 6) & 0x3ff_ffff) == a / 64 + 4 * b + 0x400 * c + 0x4_0000 * d,
        (w4(a, b, c, d) >> 8) == b + 256 * c + 0x1_0000 * d,
        ((w4(a, b, c, d) >> 8) | 0x100_0000) == b + 256 * c + 0x1_0000 * d + 0x100_0000,
        ((w4(a, b, c, d) >> 8) | 0) == b + 256 * c + 0x1_0000 * d,
{
    let w = w4(a, b, c, d);
    let a4 = a as u32; let b4 = b as u32; let c4 = c as u32; let d4 = d as u32;
    assert(w & 0x3ff_ffff == a4 + 256 * b4 + 65536 * c4 + 0x100_0000 * (d4 % 4)) by (bit_vector)
        requires w == a4 | (b4 << 8) | (c4 << 16) | (d4 << 24), a4 < 256, b4 < 256, c4 < 256, d4 < 256;
    assert((w >> 2) & 0x3ff_ffff == a4 / 4 + 64 * b4 + 0x4000 * c4 + 0x40_0000 * (d4 % 16)) by (bit_vector)
        requires w == a4 | (b4 << 8) | (c4 << 16) | (d4 << 24), a4 < 256, b4 < 256, c4 < 256, d4 < 256;
    assert((w >> 4) & 0x3ff_ffff == a4 / 16 + 16 * b4 + 0x1000 * c4 + 0x10_0000 * (d4 % 64)) by (bit_vector)
        requires w == a4 | (b4 << 8) | (c4 << 16) | (d4 << 24), a4 < 256, b4 < 256, c4 < 256, d4 < 256;
    assert((w >> 6) & 0x3ff_ffff == a4 / 64 + 4 * b4 + 0x400 * c4 + 0x4_0000 * d4) by (bit_vector)
        requires w == a4 | (b4 << 8) | (c4 << 16) | (d4 << 24), a4 < 256, b4 < 256, c4 < 256, d4 < 256;
    assert(w >> 8 == b4 + 256 * c4 + 0x1_0000 * d4) by (bit_vector)
        requires w == a4 | (b4 << 8) | (c4 << 16) | (d4 << 24), a4 < 256, b4 < 256, c4 < 256, d4 < 256;
    assert((w >> 8) | 0x100_0000 == b4 + 256 * c4 + 0x1_0000 * d4 + 0x100_0000) by (bit_vector)
        requires w == a4 | (b4 << 8) | (c4 << 16) | (d4 << 24), a4 < 256, b4 < 256, c4 < 256, d4 < 256;
    assert((w >> 8) | 0 == (w >> 8)) by (bit_vector);
}
proof fn lemma_clamp_bits(a: u8, b: u8, c: u8, d: u8)
    ensures
        ((w4(a, b, c, d) >> 2) & 0x3ff_ff03) == (a & 15) / 4 + 64 * (b & 252) + 0x4000 * c + 0x40_0000 * (d % 16),
        ((w4(a, b, c, d) >> 4) & 0x3ff_c0ff) == a / 16 + 16 * (b & 15) + 0x1000 * (c & 252) + 0x10_0000 * (d % 64),
        ((w4(a, b, c, d) >> 6) & 0x3f0_3fff) == a / 64 + 4 * b + 0x400 * (c & 15) + 0x4_0000 * (d & 252),
        ((w4(a, b, c, d) >> 8) & 0xf_ffff) == b + 256 * c + 0x1_0000 * (d & 15),
        (w4(a, b, c, d) & 0x3ff_ffff) <= 0x3ff_ffff, ((w4(a, b, c, d) >> 2) & 0x3ff_ff03) <= 0x3ff_ff03, ((w4(a, b, c, d) >> 4) & 0x3ff_c0ff) <= 0x3ff_c0ff,
        ((w4(a, b, c, d) >> 6) & 0x3f0_3fff) <= 0x3f0_3fff, ((w4(a, b, c, d) >> 8) & 0xf_ffff) <= 0xf_ffff,
        (d & 15) % 4 == d % 4, (a & 15) <= 15, (a & 252) <= 252,
{
    let w = w4(a, b, c, d);
    let a4 = a as u32; let b4 = b as u32; let c4 = c as u32; let d4 = d as u32;
    assert((w >> 2) & 0x3ff_ff03 == (a4 & 15) / 4 + 64 * (b4 & 252) + 0x4000 * c4 + 0x40_0000 * (d4 % 16)) by (bit_vector)
        requires w == a4 | (b4 << 8) | (c4 << 16) | (d4 << 24), a4 < 256, b4 < 256, c4 < 256, d4 < 256;
    assert((w >> 4) & 0x3ff_c0ff == a4 / 16 + 16 * (b4 & 15) + 0x1000 * (c4 & 252) + 0x10_0000 * (d4 % 64)) by (bit_vector)
        requires w == a4 | (b4 << 8) | (c4 << 16) | (d4 << 24), a4 < 256, b4 < 256, c4 < 256, d4 < 256;
    assert((w >> 6) & 0x3f0_3fff == a4 / 64 + 4 * b4 + 0x400 * (c4 & 15) + 0x4_0000 * (d4 & 252)) by (bit_vector)
        requires w == a4 | (b4 << 8) | (c4 << 16) | (d4 << 24), a4 < 256, b4 < 256, c4 < 256, d4 < 256;
    assert((w >> 8) & 0xf_ffff == b4 + 256 * c4 + 0x1_0000 * (d4 & 15)) by (bit_vector)
        requires w == a4 | (b4 << 8) | (c4 << 16) | (d4 << 24), a4 < 256, b4 < 256, c4 < 256, d4 < 256;
    assert(w & 0x3ff_ffff <= 0x3ff_ffff && (w >> 2) & 0x3ff_ff03 <= 0x3ff_ff03 && (w >> 4) & 0x3ff_c0ff <= 0x3ff_c0ff && (w >> 6) & 0x3f0_3fff <= 0x3f0_3fff && (w >> 8) & 0xf_ffff <= 0xf_ffff) by (bit_vector);
    assert((a4 & 15) == (a & 15) as u32) by (bit_vector) requires a4 == a as u32;
    assert((b4 & 252) == (b & 252) as u32 && (b4 & 15) == (b & 15) as u32) by (bit_vector) requires b4 == b as u32;
    assert((c4 & 252) == (c & 252) as u32 && (c4 & 15) == (c & 15) as u32) by (bit_vector) requires c4 == c as u32;
    assert((d4 & 252) == (d & 252) as u32 && (d4 & 15) == (d & 15) as u32) by (bit_vector) requires d4 == d as u32;
    assert((d & 15) % 4 == d % 4 && (a & 15) <= 15 && (a & 252) <= 252) by (bit_vector);
}

pub open spec fn high(h0: int, h1: int, h2: int, h3: int, h4: int, r0: int, r1: int, r2: int, r3: int, r4: int) -> int { h1 * r4 + h2 * r3 + h2 * r4 * 0x4000000 + h3 * r2 + h3 * r3 * 0x4000000 + h3 * r4 * 0x10000000000000 + h4 * r1 + h4 * r2 * 0x4000000 + h4 * r3 * 0x10000000000000 + h4 * r4 * 0x40000000000000000000 }
// the five columns of the product, with 2^130 replaced by 5
proof fn lemma_columns(h0: int, h1: int, h2: int, h3: int, h4: int, r0: int, r1: int, r2: int, r3: int, r4: int)
    ensures (h0 + h1 * 0x4000000 + h2 * 0x10000000000000 + h3 * 0x40000000000000000000 + h4 * 0x100000000000000000000000000) * (r0 + r1 * 0x4000000 + r2 * 0x10000000000000 + r3 * 0x40000000000000000000 + r4 * 0x100000000000000000000000000) == ((h0 * r0 + h1 * (5 * r4) + h2 * (5 * r3) + h3 * (5 * r2) + h4 * (5 * r1)) + (h0 * r1 + h1 * r0 + h2 * (5 * r4) + h3 * (5 * r3) + h4 * (5 * r2)) * 0x4000000 + (h0 * r2 + h1 * r1 + h2 * r0 + h3 * (5 * r4) + h4 * (5 * r3)) * 0x10000000000000 + (h0 * r3 + h1 * r2 + h2 * r1 + h3 * r0 + h4 * (5 * r4)) * 0x40000000000000000000 + (h0 * r4 + h1 * r3 + h2 * r2 + h3 * r1 + h4 * r0) * 0x100000000000000000000000000) + p1305() * high(h0, h1, h2, h3, h4, r0, r1, r2, r3, r4)
{
    let e = high(h0, h1, h2, h3, h4, r0, r1, r2, r3, r4);
    assert(p1305() * e == (0x4_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int) * e - 5 * e) by (nonlinear_arith);
    let x00 = h0 * r0;
    let x01 = h0 * r1;
    let x02 = h0 * r2;
    let x03 = h0 * r3;
    let x04 = h0 * r4;
    let x10 = h1 * r0;
    let x11 = h1 * r1;
    let x12 = h1 * r2;
    let x13 = h1 * r3;
    let x14 = h1 * r4;
    let x20 = h2 * r0;
    let x21 = h2 * r1;
    let x22 = h2 * r2;
    let x23 = h2 * r3;
    let x24 = h2 * r4;
    let x30 = h3 * r0;
    let x31 = h3 * r1;
    let x32 = h3 * r2;
    let x33 = h3 * r3;
    let x34 = h3 * r4;
    let x40 = h4 * r0;
    let x41 = h4 * r1;
    let x42 = h4 * r2;
    let x43 = h4 * r3;
    let x44 = h4 * r4;
    let r = r0 + r1 * 0x4000000 + r2 * 0x10000000000000 + r3 * 0x40000000000000000000 + r4 * 0x100000000000000000000000000;
    assert(h0 * r == x00 + x01 * 0x4000000 + x02 * 0x10000000000000 + x03 * 0x40000000000000000000 + x04 * 0x100000000000000000000000000) by (nonlinear_arith) requires r == r0 + r1 * 0x4000000 + r2 * 0x10000000000000 + r3 * 0x40000000000000000000 + r4 * 0x100000000000000000000000000, x00 == h0 * r0, x01 == h0 * r1, x02 == h0 * r2, x03 == h0 * r3, x04 == h0 * r4;
    assert(h1 * r == x10 + x11 * 0x4000000 + x12 * 0x10000000000000 + x13 * 0x40000000000000000000 + x14 * 0x100000000000000000000000000) by (nonlinear_arith) requires r == r0 + r1 * 0x4000000 + r2 * 0x10000000000000 + r3 * 0x40000000000000000000 + r4 * 0x100000000000000000000000000, x10 == h1 * r0, x11 == h1 * r1, x12 == h1 * r2, x13 == h1 * r3, x14 == h1 * r4;
    assert(h2 * r == x20 + x21 * 0x4000000 + x22 * 0x10000000000000 + x23 * 0x40000000000000000000 + x24 * 0x100000000000000000000000000) by (nonlinear_arith) requires r == r0 + r1 * 0x4000000 + r2 * 0x10000000000000 + r3 * 0x40000000000000000000 + r4 * 0x100000000000000000000000000, x20 == h2 * r0, x21 == h2 * r1, x22 == h2 * r2, x23 == h2 * r3, x24 == h2 * r4;
    assert(h3 * r == x30 + x31 * 0x4000000 + x32 * 0x10000000000000 + x33 * 0x40000000000000000000 + x34 * 0x100000000000000000000000000) by (nonlinear_arith) requires r == r0 + r1 * 0x4000000 + r2 * 0x10000000000000 + r3 * 0x40000000000000000000 + r4 * 0x100000000000000000000000000, x30 == h3 * r0, x31 == h3 * r1, x32 == h3 * r2, x33 == h3 * r3, x34 == h3 * r4;
    assert(h4 * r == x40 + x41 * 0x4000000 + x42 * 0x10000000000000 + x43 * 0x40000000000000000000 + x44 * 0x100000000000000000000000000) by (nonlinear_arith) requires r == r0 + r1 * 0x4000000 + r2 * 0x10000000000000 + r3 * 0x40000000000000000000 + r4 * 0x100000000000000000000000000, x40 == h4 * r0, x41 == h4 * r1, x42 == h4 * r2, x43 == h4 * r3, x44 == h4 * r4;
    assert((h0 + h1 * 0x4000000 + h2 * 0x10000000000000 + h3 * 0x40000000000000000000 + h4 * 0x100000000000000000000000000) * r == (h0 * r) + (h1 * r) * 0x4000000 + (h2 * r) * 0x10000000000000 + (h3 * r) * 0x40000000000000000000 + (h4 * r) * 0x100000000000000000000000000) by (nonlinear_arith);
    assert(h1 * (5 * r4) == 5 * x14) by (nonlinear_arith) requires x14 == h1 * r4;
    assert(h2 * (5 * r3) == 5 * x23) by (nonlinear_arith) requires x23 == h2 * r3;
    assert(h2 * (5 * r4) == 5 * x24) by (nonlinear_arith) requires x24 == h2 * r4;
    assert(h3 * (5 * r2) == 5 * x32) by (nonlinear_arith) requires x32 == h3 * r2;
    assert(h3 * (5 * r3) == 5 * x33) by (nonlinear_arith) requires x33 == h3 * r3;
    assert(h3 * (5 * r4) == 5 * x34) by (nonlinear_arith) requires x34 == h3 * r4;
    assert(h4 * (5 * r1) == 5 * x41) by (nonlinear_arith) requires x41 == h4 * r1;
    assert(h4 * (5 * r2) == 5 * x42) by (nonlinear_arith) requires x42 == h4 * r2;
    assert(h4 * (5 * r3) == 5 * x43) by (nonlinear_arith) requires x43 == h4 * r3;
    assert(h4 * (5 * r4) == 5 * x44) by (nonlinear_arith) requires x44 == h4 * r4;
}
proof fn lemma_prod(a: int, b: int)
    requires 0 <= a <= 0x800_0100, 0 <= b <= 0x400_0000
    ensures 0 <= a * b <= 0x800_0100 * 0x400_0000, 0 <= a * (5 * b) <= 5 * (0x800_0100 * 0x400_0000)
{
    assert(0 <= a * b <= 0x800_0100 * 0x400_0000) by (nonlinear_arith) requires 0 <= a <= 0x800_0100, 0 <= b <= 0x400_0000;
    assert(a * (5 * b) == 5 * (a * b)) by (nonlinear_arith);
}
proof fn lemma_prods(h0: int, h1: int, h2: int, h3: int, h4: int, r0: int, r1: int, r2: int, r3: int, r4: int)
    requires 0 <= h0 <= 0x800_0100, 0 <= h1 <= 0x800_0100, 0 <= h2 <= 0x800_0100, 0 <= h3 <= 0x800_0100, 0 <= h4 <= 0x800_0100, 0 <= r0 <= 0x400_0000, 0 <= r1 <= 0x400_0000, 0 <= r2 <= 0x400_0000, 0 <= r3 <= 0x400_0000, 0 <= r4 <= 0x400_0000
    ensures 0 <= h0 * r0 <= 0x800_0100 * 0x400_0000, 0 <= h0 * (5 * r0) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h0 * r1 <= 0x800_0100 * 0x400_0000, 0 <= h0 * (5 * r1) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h0 * r2 <= 0x800_0100 * 0x400_0000, 0 <= h0 * (5 * r2) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h0 * r3 <= 0x800_0100 * 0x400_0000, 0 <= h0 * (5 * r3) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h0 * r4 <= 0x800_0100 * 0x400_0000, 0 <= h0 * (5 * r4) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h1 * r0 <= 0x800_0100 * 0x400_0000, 0 <= h1 * (5 * r0) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h1 * r1 <= 0x800_0100 * 0x400_0000, 0 <= h1 * (5 * r1) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h1 * r2 <= 0x800_0100 * 0x400_0000, 0 <= h1 * (5 * r2) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h1 * r3 <= 0x800_0100 * 0x400_0000, 0 <= h1 * (5 * r3) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h1 * r4 <= 0x800_0100 * 0x400_0000, 0 <= h1 * (5 * r4) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h2 * r0 <= 0x800_0100 * 0x400_0000, 0 <= h2 * (5 * r0) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h2 * r1 <= 0x800_0100 * 0x400_0000, 0 <= h2 * (5 * r1) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h2 * r2 <= 0x800_0100 * 0x400_0000, 0 <= h2 * (5 * r2) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h2 * r3 <= 0x800_0100 * 0x400_0000, 0 <= h2 * (5 * r3) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h2 * r4 <= 0x800_0100 * 0x400_0000, 0 <= h2 * (5 * r4) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h3 * r0 <= 0x800_0100 * 0x400_0000, 0 <= h3 * (5 * r0) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h3 * r1 <= 0x800_0100 * 0x400_0000, 0 <= h3 * (5 * r1) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h3 * r2 <= 0x800_0100 * 0x400_0000, 0 <= h3 * (5 * r2) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h3 * r3 <= 0x800_0100 * 0x400_0000, 0 <= h3 * (5 * r3) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h3 * r4 <= 0x800_0100 * 0x400_0000, 0 <= h3 * (5 * r4) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h4 * r0 <= 0x800_0100 * 0x400_0000, 0 <= h4 * (5 * r0) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h4 * r1 <= 0x800_0100 * 0x400_0000, 0 <= h4 * (5 * r1) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h4 * r2 <= 0x800_0100 * 0x400_0000, 0 <= h4 * (5 * r2) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h4 * r3 <= 0x800_0100 * 0x400_0000, 0 <= h4 * (5 * r3) <= 5 * (0x800_0100 * 0x400_0000),
        0 <= h4 * r4 <= 0x800_0100 * 0x400_0000, 0 <= h4 * (5 * r4) <= 5 * (0x800_0100 * 0x400_0000)
{
    lemma_prod(h0, r0);
    lemma_prod(h0, r1);
    lemma_prod(h0, r2);
    lemma_prod(h0, r3);
    lemma_prod(h0, r4);
    lemma_prod(h1, r0);
    lemma_prod(h1, r1);
    lemma_prod(h1, r2);
    lemma_prod(h1, r3);
    lemma_prod(h1, r4);
    lemma_prod(h2, r0);
    lemma_prod(h2, r1);
    lemma_prod(h2, r2);
    lemma_prod(h2, r3);
    lemma_prod(h2, r4);
    lemma_prod(h3, r0);
    lemma_prod(h3, r1);
    lemma_prod(h3, r2);
    lemma_prod(h3, r3);
    lemma_prod(h3, r4);
    lemma_prod(h4, r0);
    lemma_prod(h4, r1);
    lemma_prod(h4, r2);
    lemma_prod(h4, r3);
    lemma_prod(h4, r4);
}
// what masks and shifts by one limb mean
#[verifier::opaque]
pub open spec fn dv(x: int) -> int { x / 0x400_0000 }
#[verifier::opaque]
pub open spec fn md(x: int) -> int { x % 0x400_0000 }
proof fn lemma_limbs()
    ensures
        forall|d: u64| #![trigger d >> 26u64] (d >> 26u64) == dv(d as int),
        forall|d: u64| #![trigger d as u32] md((d as u32) as int) == md(d as int),
        forall|d: u32| #![trigger d >> 26u32] (d >> 26u32) == dv(d as int),
        forall|d: u32| #![trigger d & 0x3ff_ffffu32] (d & 0x3ff_ffffu32) == md(d as int),
        forall|x: int| 0 <= #[trigger] md(x) < 0x400_0000,
{
    reveal(dv);
    reveal(md);
    assert(forall|d: u64| #![trigger d >> 26u64] (d >> 26u64) == d / 0x400_0000) by (bit_vector);
    assert(forall|d: u64| #![trigger d as u32] (d as u32) % 0x400_0000 == d % 0x400_0000) by (bit_vector);
    assert(forall|d: u32| #![trigger d >> 26u32] (d >> 26u32) == d / 0x400_0000) by (bit_vector);
    assert(forall|d: u32| #![trigger d & 0x3ff_ffffu32] (d & 0x3ff_ffffu32) == d % 0x400_0000) by (bit_vector);
}
proof fn lemma_limbs_plain()
    ensures
        forall|d: u32| #![trigger d >> 26u32] (d >> 26u32) == d / 0x400_0000,
        forall|d: u32| #![trigger d & 0x3ff_ffffu32] (d & 0x3ff_ffffu32) == d % 0x400_0000,
{
    assert(forall|d: u32| #![trigger d >> 26u32] (d >> 26u32) == d / 0x400_0000) by (bit_vector);
    assert(forall|d: u32| #![trigger d & 0x3ff_ffffu32] (d & 0x3ff_ffffu32) == d % 0x400_0000) by (bit_vector);
}
proof fn lemma_carry(e0: int, e1: int, e2: int, e3: int, e4: int)
    requires 0 <= e0 <= 0x2a1_0000_0000_0000, 0 <= e1 <= 0x2a1_0000_0000_0000, 0 <= e2 <= 0x2a1_0000_0000_0000, 0 <= e3 <= 0x2a1_0000_0000_0000, 0 <= e4 <= 5 * (0x800_0100 * 0x400_0000)
    ensures ({
        let d1 = e1 + dv(e0);
        let d2 = e2 + dv(d1);
        let d3 = e3 + dv(d2);
        let d4 = e4 + dv(d3);
        let c4 = dv(d4);
        let t0 = md(e0) + c4 * 5;
        &&& 0 <= dv(e0) <= 0xb000_0000 && 0 <= dv(d1) <= 0xb000_0000 && 0 <= dv(d2) <= 0xb000_0000 && 0 <= dv(d3) <= 0xb000_0000 && 0 <= c4 <= 0x2800_0600 && 0 <= dv(t0) <= 52
        &&& md(t0) + (md(d1) + dv(t0)) * 0x4000000 + md(d2) * 0x10000000000000 + md(d3) * 0x40000000000000000000 + md(d4) * 0x100000000000000000000000000 + c4 * p1305() == e0 + e1 * 0x4000000 + e2 * 0x10000000000000 + e3 * 0x40000000000000000000 + e4 * 0x100000000000000000000000000
    })
{
    reveal(dv);
    reveal(md);
    let d4 = e4 + (e3 + (e2 + (e1 + e0 / 0x400_0000) / 0x400_0000) / 0x400_0000) / 0x400_0000;
    let c4 = d4 / 0x400_0000;
    assert(c4 * p1305() == (0x4_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int) * c4 - 5 * c4) by (nonlinear_arith);
}
pub open spec fn val4(w: Seq<u32>) -> int { w[0] + w[1] * 0x100000000 + w[2] * 0x10000000000000000 + w[3] * 0x1000000000000000000000000 }
proof fn lemma_pack(a0: int, a1: int, a2: int, a3: int, a4: int)
    requires 0 <= a0 < 0x400_0000, 0 <= a1 < 0x400_0000, 0 <= a2 < 0x400_0000, 0 <= a3 < 0x400_0000, 0 <= a4 < 0x400_0000
    ensures ({
        let w0 = a0 + (a1 % 64) * 0x400_0000;
        let w1 = a1 / 64 + (a2 % 0x1000) * 0x10_0000;
        let w2 = a2 / 0x1000 + (a3 % 0x4_0000) * 0x4000;
        let w3 = a3 / 0x4_0000 + (a4 % 0x100_0000) * 0x100;
        w0 + w1 * 0x100000000 + w2 * 0x10000000000000000 + w3 * 0x1000000000000000000000000 + (a4 / 0x100_0000) * two128() == a0 + a1 * 0x4000000 + a2 * 0x10000000000000 + a3 * 0x40000000000000000000 + a4 * 0x100000000000000000000000000
    })
{
    let x = a4 / 0x100_0000;
    assert(x * two128() == (0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int) * x) by (nonlinear_arith);
}
proof fn lemma_mod_is(a: int, x: int, k: int, m: int)
    requires a == x + k * m, 0 <= x < m
    ensures a % m == x
{
    assert(a == k * m + x);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a, m, k, x);
}
proof fn lemma_add4(w0: int, w1: int, w2: int, w3: int, p0: int, p1: int, p2: int, p3: int, n: int, q: int)
    requires
        0 <= w0 < 0x1_0000_0000, 0 <= w1 < 0x1_0000_0000, 0 <= w2 < 0x1_0000_0000, 0 <= w3 < 0x1_0000_0000,
        0 <= p0 < 0x1_0000_0000, 0 <= p1 < 0x1_0000_0000, 0 <= p2 < 0x1_0000_0000, 0 <= p3 < 0x1_0000_0000,
        n == w0 + w1 * 0x100000000 + w2 * 0x10000000000000000 + w3 * 0x1000000000000000000000000 + q * two128(),
    ensures ({
        let f0 = w0 + p0;
        let f1 = w1 + p1 + f0 / 0x1_0000_0000;
        let f2 = w2 + p2 + f1 / 0x1_0000_0000;
        let f3 = w3 + p3 + f2 / 0x1_0000_0000;
        (f0 % 0x1_0000_0000) + (f1 % 0x1_0000_0000) * 0x100000000 + (f2 % 0x1_0000_0000) * 0x10000000000000000 + (f3 % 0x1_0000_0000) * 0x1000000000000000000000000 == (n + (p0 + p1 * 0x100000000 + p2 * 0x10000000000000000 + p3 * 0x1000000000000000000000000)) % two128()
    })
{
    let f0 = w0 + p0;
    let f1 = w1 + p1 + f0 / 0x1_0000_0000;
    let f2 = w2 + p2 + f1 / 0x1_0000_0000;
    let f3 = w3 + p3 + f2 / 0x1_0000_0000;
    let c = f3 / 0x1_0000_0000;
    let x = (f0 % 0x1_0000_0000) + (f1 % 0x1_0000_0000) * 0x100000000 + (f2 % 0x1_0000_0000) * 0x10000000000000000 + (f3 % 0x1_0000_0000) * 0x1000000000000000000000000;
    assert((q + c) * two128() == q * two128() + (0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int) * c) by (nonlinear_arith);
    lemma_mod_is(n + (p0 + p1 * 0x100000000 + p2 * 0x10000000000000000 + p3 * 0x1000000000000000000000000), x, q + c, two128());
}
proof fn lemma_pack_bits()
    ensures
        forall|a: u32, b: u32| #![trigger a | (b << 26u32)] a < 0x400_0000 ==> (a | (b << 26u32)) == a + (b % 64) * 0x400_0000,
        forall|a: u32, b: u32| #![trigger (a >> 6u32) | (b << 20u32)] a < 0x400_0000 && b < 0x400_0000 ==> ((a >> 6u32) | (b << 20u32)) == a / 64 + (b % 0x1000) * 0x10_0000,
        forall|a: u32, b: u32| #![trigger (a >> 12u32) | (b << 14u32)] a < 0x400_0000 && b < 0x400_0000 ==> ((a >> 12u32) | (b << 14u32)) == a / 0x1000 + (b % 0x4_0000) * 0x4000,
        forall|a: u32, b: u32| #![trigger (a >> 18u32) | (b << 8u32)] a < 0x400_0000 && b < 0x400_0000 ==> ((a >> 18u32) | (b << 8u32)) == a / 0x4_0000 + (b % 0x100_0000) * 0x100,
{
    assert(forall|a: u32, b: u32| #![trigger a | (b << 26u32)] a < 0x400_0000 ==> (a | (b << 26u32)) == a + (b % 64) * 0x400_0000) by (bit_vector);
    assert(forall|a: u32, b: u32| #![trigger (a >> 6u32) | (b << 20u32)] a < 0x400_0000 && b < 0x400_0000 ==> ((a >> 6u32) | (b << 20u32)) == a / 64 + (b % 0x1000) * 0x10_0000) by (bit_vector);
    assert(forall|a: u32, b: u32| #![trigger (a >> 12u32) | (b << 14u32)] a < 0x400_0000 && b < 0x400_0000 ==> ((a >> 12u32) | (b << 14u32)) == a / 0x1000 + (b % 0x4_0000) * 0x4000) by (bit_vector);
    assert(forall|a: u32, b: u32| #![trigger (a >> 18u32) | (b << 8u32)] a < 0x400_0000 && b < 0x400_0000 ==> ((a >> 18u32) | (b << 8u32)) == a / 0x4_0000 + (b % 0x100_0000) * 0x100) by (bit_vector);
}
proof fn lemma_select()
    ensures
        forall|x: u32| #![trigger x >> 31u32] (x >> 31u32) == x / 0x8000_0000,
        forall|x: u32| #![trigger x & 0xffff_ffffu32] (x & 0xffff_ffffu32) == x,
        forall|x: u32| #![trigger x & 0u32] (x & 0u32) == 0,
        forall|x: u32| #![trigger x | 0u32] (x | 0u32) == x,
        forall|x: u32| #![trigger 0u32 | x] (0u32 | x) == x,
        !0u32 == 0xffff_ffffu32, !0xffff_ffffu32 == 0,
        forall|d: u64| #![trigger d >> 32u64] (d >> 32u64) == d / 0x1_0000_0000,
        forall|d: u64| #![trigger d as u32] (d as u32) == d % 0x1_0000_0000,
        1u32 << 26 == 0x400_0000,
{
    assert(forall|d: u64| #![trigger d as u32] (d as u32) == d % 0x1_0000_0000) by (bit_vector);
    assert(forall|x: u32| #![trigger x >> 31u32] (x >> 31u32) == x / 0x8000_0000) by (bit_vector);
    assert(forall|x: u32| #![trigger x & 0xffff_ffffu32] (x & 0xffff_ffffu32) == x) by (bit_vector);
    assert(forall|x: u32| #![trigger x & 0u32] (x & 0u32) == 0) by (bit_vector);
    assert(forall|x: u32| #![trigger x | 0u32] (x | 0u32) == x) by (bit_vector);
    assert(forall|x: u32| #![trigger 0u32 | x] (0u32 | x) == x) by (bit_vector);
    assert(!0u32 == 0xffff_ffffu32 && !0xffff_ffffu32 == 0) by (bit_vector);
    assert(forall|d: u64| #![trigger d >> 32u64] (d >> 32u64) == d / 0x1_0000_0000) by (bit_vector);
    assert(1u32 << 26 == 0x400_0000) by (bit_vector);
}
proof fn lemma_le_words(b: Seq<u8>, w0: u32, w1: u32, w2: u32, w3: u32)
    requires b.len() == 16,
        forall|i: int| 0 <= i < 4 ==> b[i] == le32_bytes(w0)[i],
        forall|i: int| 0 <= i < 4 ==> b[4 + i] == le32_bytes(w1)[i],
        forall|i: int| 0 <= i < 4 ==> b[8 + i] == le32_bytes(w2)[i],
        forall|i: int| 0 <= i < 4 ==> b[12 + i] == le32_bytes(w3)[i],
    ensures le_nat(b) == w0 + w1 * 0x100000000 + w2 * 0x10000000000000000 + w3 * 0x1000000000000000000000000
{
    lemma_le16(b);
    lemma_word_bytes(w0); lemma_word_bytes(w1); lemma_word_bytes(w2); lemma_word_bytes(w3);
    assert(b[0] == le32_bytes(w0)[0] && b[1] == le32_bytes(w0)[1] && b[2] == le32_bytes(w0)[2] && b[3] == le32_bytes(w0)[3]);
    assert(b[4int + 0] == le32_bytes(w1)[0] && b[4int + 1] == le32_bytes(w1)[1] && b[4int + 2] == le32_bytes(w1)[2] && b[4int + 3] == le32_bytes(w1)[3]);
    assert(b[8int + 0] == le32_bytes(w2)[0] && b[8int + 1] == le32_bytes(w2)[1] && b[8int + 2] == le32_bytes(w2)[2] && b[8int + 3] == le32_bytes(w2)[3]);
    assert(b[12int + 0] == le32_bytes(w3)[0] && b[12int + 1] == le32_bytes(w3)[1] && b[12int + 2] == le32_bytes(w3)[2] && b[12int + 3] == le32_bytes(w3)[3]);
}
proof fn lemma_word_bytes(w: u32)
    ensures w == le32_bytes(w)[0] + 256 * le32_bytes(w)[1] + 0x1_0000 * le32_bytes(w)[2] + 0x100_0000 * le32_bytes(w)[3]
{
    assert(w == (w as u8) as u32 + 256 * (((w >> 8) as u8) as u32) + 0x1_0000 * (((w >> 16) as u8) as u32) + 0x100_0000 * (((w >> 24) as u8) as u32)) by (bit_vector);
}
proof fn lemma_word_le(s: Seq<u8>)
    requires s.len() == 16
    ensures le_nat(s) == le32(s, 0) + le32(s, 4) * 0x100000000 + le32(s, 8) * 0x10000000000000000 + le32(s, 12) * 0x1000000000000000000000000
{
    lemma_le16(s);
    lemma_w4_sum(s[0], s[1], s[2], s[3]);
    lemma_w4_sum(s[4], s[5], s[6], s[7]);
    lemma_w4_sum(s[8], s[9], s[10], s[11]);
    lemma_w4_sum(s[12], s[13], s[14], s[15]);
}
proof fn lemma_w4_sum(a: u8, b: u8, c: u8, d: u8)
    ensures w4(a, b, c, d) == a + 256 * b + 0x1_0000 * c + 0x100_0000 * d
{
    assert(((a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24)) == (a as u32) + 256 * (b as u32) + 0x1_0000 * (c as u32) + 0x100_0000 * (d as u32)) by (bit_vector);
}
proof fn lemma_pow16() ensures pow256(16) == two128()
{ reveal_with_fuel(pow256, 17); }
// carrying from limb 1 upwards and around, once
proof fn lemma_rotate(h0: int, h1: int, h2: int, h3: int, h4: int)
    requires 0 <= h0 <= 0x3ff_ffff, 0 <= h1 <= 0x3ff_ffff + 0x100, 0 <= h2 <= 0x3ff_ffff, 0 <= h3 <= 0x3ff_ffff, 0 <= h4 <= 0x3ff_ffff
    ensures ({
        let d2 = h2 + h1 / 0x400_0000;
        let d3 = h3 + d2 / 0x400_0000;
        let d4 = h4 + d3 / 0x400_0000;
        let t0 = h0 + d4 / 0x400_0000 * 5;
        let t1 = h1 % 0x400_0000 + t0 / 0x400_0000;
        let v = t0 % 0x400_0000 + t1 * 0x4000000 + (d2 % 0x400_0000) * 0x10000000000000 + (d3 % 0x400_0000) * 0x40000000000000000000 + (d4 % 0x400_0000) * 0x100000000000000000000000000;
        &&& t1 < 0x400_0000
        &&& v % p1305() == (h0 + h1 * 0x4000000 + h2 * 0x10000000000000 + h3 * 0x40000000000000000000 + h4 * 0x100000000000000000000000000) % p1305()
        &&& 0 <= v < 2 * p1305()
    })
{
    let d4 = h4 + (h3 + (h2 + h1 / 0x400_0000) / 0x400_0000) / 0x400_0000;
    let c = d4 / 0x400_0000;
    let d2 = h2 + h1 / 0x400_0000;
    let d3 = h3 + d2 / 0x400_0000;
    let t0 = h0 + d4 / 0x400_0000 * 5;
    let t1 = h1 % 0x400_0000 + t0 / 0x400_0000;
    let v = t0 % 0x400_0000 + t1 * 0x4000000 + (d2 % 0x400_0000) * 0x10000000000000 + (d3 % 0x400_0000) * 0x40000000000000000000 + (d4 % 0x400_0000) * 0x100000000000000000000000000;
    assert(c == 0 || c == 1);
    assert(v + c * p1305() == h0 + h1 * 0x4000000 + h2 * 0x10000000000000 + h3 * 0x40000000000000000000 + h4 * 0x100000000000000000000000000) by {
        if c == 0 { assert(c * p1305() == 0) by (nonlinear_arith) requires c == 0; } else { assert(c * p1305() == p1305()) by (nonlinear_arith) requires c == 1; }
    }
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(c, v, p1305());
    assert(p1305() * c == c * p1305()) by (nonlinear_arith);
}
proof fn lemma_le_zeros(s: Seq<u8>, t: Seq<u8>, i: int)
    requires s.len() <= t.len(), 0 <= i,
        forall|k: int| 0 <= k < s.len() ==> t[k] == s[k],
        forall|k: int| s.len() <= k < t.len() ==> t[k] == 0,
    ensures le_from(s, i) == le_from(t, i)
    decreases t.len() - i
{
    if i < t.len() { lemma_le_zeros(s, t, i + 1); }
}
proof fn lemma_acc_step(acc: int, x: int, m: int, r: int)
    requires acc == x % p1305()
    ensures (acc + m) * r % p1305() == (x + m) * r % p1305()
{
    vstd::arithmetic::div_mod::lemma_add_mod_noop(x, m, p1305());
    vstd::arithmetic::div_mod::lemma_add_mod_noop(acc, m, p1305());
    vstd::arithmetic::div_mod::lemma_mod_twice(x, p1305());
    vstd::arithmetic::div_mod::lemma_mul_mod_noop(x + m, r, p1305());
    vstd::arithmetic::div_mod::lemma_mul_mod_noop(acc + m, r, p1305());
}
//@fn <Poly1305 as Default>::default
    ensures r.r@ == Seq::new(5, |i: int| 0u32), r.h@ == Seq::new(5, |i: int| 0u32), r.pad@ == Seq::new(4, |i: int| 0u32)
//@hint ret
    proof { assert(__ret.r@ =~= Seq::new(5, |i: int| 0u32) && __ret.h@ =~= Seq::new(5, |i: int| 0u32) && __ret.pad@ =~= Seq::new(4, |i: int| 0u32)); }
//@fn Poly1305::new
    ensures
        val5(p.r@) == le_nat(clamp(r@)), r_ok(p.r@),
        p.h@ == Seq::new(5, |i: int| 0u32),
        p.pad@.len() == 4, forall|i: int| 0 <= i < 4 ==> p.pad@[i] == le32(s@, 4 * i),
//@ret p
//@hint start
    let ghost b = r@;
    let ghost cb = clamp(r@);
    proof {
        lemma_le16(cb);
        lemma_limb_bits(b[0], b[1], b[2], b[3]);
        lemma_clamp_bits(b[0], b[1], b[2], b[3]);
        lemma_clamp_bits(b[3], b[4], b[5], b[6]);
        lemma_clamp_bits(b[6], b[7], b[8], b[9]);
        lemma_clamp_bits(b[9], b[10], b[11], b[12]);
        lemma_clamp_bits(b[12], b[13], b[14], b[15]);
    }
//@fn Poly1305::compute_block
    requires r_ok(old(self).r@), h_ok(old(self).h@),
    ensures
        final(self).r@ == old(self).r@, final(self).pad@ == old(self).pad@, h_ok(final(self).h@),
        val5(final(self).h@) % p1305() ==
            (val5(old(self).h@) + le_nat(if partial { block@ } else { block@.push(1) })) * val5(old(self).r@) % p1305(),
//@hint start
    let ghost b = block@;
    proof {
        lemma_le16(b);
        lemma_le17(b.push(1));
        lemma_limb_bits(b[0], b[1], b[2], b[3]);
        lemma_limb_bits(b[3], b[4], b[5], b[6]);
        lemma_limb_bits(b[6], b[7], b[8], b[9]);
        lemma_limb_bits(b[9], b[10], b[11], b[12]);
        lemma_limb_bits(b[12], b[13], b[14], b[15]);
        assert(1u32 << 24 == 0x100_0000u32) by (bit_vector);
        lemma_limbs();
    }
//@hint before /let d0 =/
    let ghost (g0, g1, g2, g3, g4) = (h0 as int, h1 as int, h2 as int, h3 as int, h4 as int);
    let ghost hm = val5(old(self).h@) + le_nat(if partial { block@ } else { block@.push(1) });
    proof {
        assert(g0 + g1 * 0x4000000 + g2 * 0x10000000000000 + g3 * 0x40000000000000000000 + g4 * 0x100000000000000000000000000 == hm);
        lemma_prods(g0, g1, g2, g3, g4, r0 as int, r1 as int, r2 as int, r3 as int, r4 as int);
    }
//@hint before /let mut c :/
    let ghost (e0, e1, e2, e3, e4) = (d0 as int, d1 as int, d2 as int, d3 as int, d4 as int);
    proof { lemma_carry(e0, e1, e2, e3, e4); }
//@hint end
    proof {
        let hh = high(g0, g1, g2, g3, g4, r0 as int, r1 as int, r2 as int, r3 as int, r4 as int);
        let rr = val5(old(self).r@);
        let c4 = dv(d4 as int);
        lemma_columns(g0, g1, g2, g3, g4, r0 as int, r1 as int, r2 as int, r3 as int, r4 as int);
        assert(val5(self.h@) + c4 * p1305() == e0 + e1 * 0x4000000 + e2 * 0x10000000000000 + e3 * 0x40000000000000000000 + e4 * 0x100000000000000000000000000);
        assert(hm * rr == val5(self.h@) + p1305() * (hh + c4)) by (nonlinear_arith)
            requires hm * rr == val5(self.h@) + c4 * p1305() + p1305() * hh;
        vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(hh + c4, val5(self.h@), p1305());
    }
//@fn Poly1305::finalize
    requires h_ok(old(self).h@),
    ensures final(ret)@ == to_le(((val5(old(self).h@) % p1305() + val4(old(self).pad@)) % two128()) as nat, 16),
//@hint start
    let ghost hv = val5(self.h@);
    proof { lemma_limbs_plain(); }
//@hint before /let mut g0/
    let ghost (k0, k1, k2, k3, k4) = (h0 as int, h1 as int, h2 as int, h3 as int, h4 as int);
    let ghost kv = k0 + k1 * 0x4000000 + k2 * 0x10000000000000 + k3 * 0x40000000000000000000 + k4 * 0x100000000000000000000000000;
    let ghost nv = hv % p1305();
    proof {
        lemma_rotate(self.h[0] as int, self.h[1] as int, self.h[2] as int, self.h[3] as int, self.h[4] as int);
        assert(kv < 2 * p1305() && kv % p1305() == nv);
        if kv >= p1305() { lemma_mod_is(kv, kv - p1305(), 1, p1305()); } else { lemma_mod_is(kv, kv, 0, p1305()); }
        assert(nv == if kv >= p1305() { kv - p1305() } else { kv });
        lemma_select();
    }
//@hint before /h0 \|=/
    let ghost (a0, a1, a2, a3, a4) = (h0 as int, h1 as int, h2 as int, h3 as int, h4 as int);
    proof {
        assert(a0 < 0x400_0000 && a1 < 0x400_0000 && a2 < 0x400_0000 && a3 < 0x400_0000 && a4 < 0x400_0000);
        assert(a0 + a1 * 0x4000000 + a2 * 0x10000000000000 + a3 * 0x40000000000000000000 + a4 * 0x100000000000000000000000000 == nv);
        lemma_pack(a0, a1, a2, a3, a4);
        lemma_pack_bits();
    }
//@hint before /let mut f :/
    let ghost (w0, w1, w2, w3) = (h0 as int, h1 as int, h2 as int, h3 as int);
    proof {
        assert(w0 + w1 * 0x100000000 + w2 * 0x10000000000000000 + w3 * 0x1000000000000000000000000 + (a4 / 0x100_0000) * two128() == nv);
    }
//@hint end
    proof {
        lemma_add4(w0, w1, w2, w3, self.pad[0] as int, self.pad[1] as int, self.pad[2] as int, self.pad[3] as int, nv, a4 / 0x100_0000);
        assert(h0 + h1 * 0x100000000 + h2 * 0x10000000000000000 + h3 * 0x1000000000000000000000000 == (nv + val4(self.pad@)) % two128());
        lemma_le_words(ret@, h0, h1, h2, h3);
        lemma_pow16();
        lemma_to_le(le_nat(ret@), ret@);
    }
//@fn authenticate
//@ret tag
    ensures tag@ == poly_tag(msg@, r@, s@),
//@attr #[verifier::loop_isolation(true)]
//@hint loop 0 before
    proof {
        assert(val5(p.h@) == 0);
        assert(poly_acc(msg@, r@, 0) == 0) by { reveal(poly_acc); }
        lemma_word_le(s@);
        assert(val4(p.pad@) == le_nat(s@));
    }
//@loop 0
    invariant
        __pos1 <= msg@.len(), __pos1 % 16 == 0 || __pos1 == msg@.len(),
        val5(p.h@) % p1305() == poly_acc(msg@, r@, __pos1 as int),
        h_ok(p.h@), r_ok(p.r@), val5(p.r@) == le_nat(clamp(r@)),
        val4(p.pad@) == le_nat(s@),
    decreases msg@.len() - __pos1,
//@hint loop 0 start
    let ghost k = __pos1 as int;
    let ghost x = val5(p.h@);
    let ghost rv = val5(p.r@);
    let ghost m;
//@hint after /__pos1 =/
    proof {
        m = msg@.subrange(k, __pos1 as int).push(1);
        assert(block@ == msg@.subrange(k, __pos1 as int));
        assert(16 * ((__pos1 - 1) / 16) == k);
        assert(poly_acc(msg@, r@, __pos1 as int) == (poly_acc(msg@, r@, k) + le_nat(m)) * rv % p1305()) by { reveal(poly_acc); }
        lemma_acc_step(poly_acc(msg@, r@, k), x, le_nat(m) as int, rv);
    }
//@hint before /p \. compute_block/ #1
    proof { lemma_le_zeros(m, filled_block@, 0); }
