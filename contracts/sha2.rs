//@module crypto::sha2
//@spec
// FIPS 180-4, SHA-256
#[verifier::opaque]
pub open spec fn k256() -> Seq<u32> { seq![
    0x428a2f98u32, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
    0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
    0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
    0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
    0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
    0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
    0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2] }
#[verifier::opaque]
pub open spec fn h256() -> Seq<u32> { seq![
    0x6a09e667u32, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19] }
pub open spec fn ch(x: u32, y: u32, z: u32) -> u32 { (x & y) ^ (!x & z) }
pub open spec fn maj(x: u32, y: u32, z: u32) -> u32 { (x & y) ^ (x & z) ^ (y & z) }
pub open spec fn bsig0(x: u32) -> u32 { rotr32(x, 2) ^ rotr32(x, 13) ^ rotr32(x, 22) }
pub open spec fn bsig1(x: u32) -> u32 { rotr32(x, 6) ^ rotr32(x, 11) ^ rotr32(x, 25) }
pub open spec fn ssig0(x: u32) -> u32 { rotr32(x, 7) ^ rotr32(x, 18) ^ (x >> 3) }
pub open spec fn ssig1(x: u32) -> u32 { rotr32(x, 17) ^ rotr32(x, 19) ^ (x >> 10) }
// message schedule W_t of the 64-byte block `b`
#[verifier::opaque]
pub open spec fn wt(b: Seq<u8>, t: int) -> u32
    decreases t
{
    if t < 0 { 0 } else if t < 16 { be32(b, 4 * t) }
    else { add32(add32(add32(ssig1(wt(b, t - 2)), wt(b, t - 7)), ssig0(wt(b, t - 15))), wt(b, t - 16)) }
}
#[verifier::opaque]
pub open spec fn sha_step(s: Seq<u32>, k: u32, w: u32) -> Seq<u32> {
    let t1 = add32(add32(add32(add32(s[7], bsig1(s[4])), ch(s[4], s[5], s[6])), k), w);
    let t2 = add32(bsig0(s[0]), maj(s[0], s[1], s[2]));
    seq![add32(t1, t2), s[0], s[1], s[2], add32(s[3], t1), s[4], s[5], s[6]]
}
#[verifier::opaque]
pub open spec fn sha_rounds(s: Seq<u32>, b: Seq<u8>, t: int) -> Seq<u32>
    decreases t
{
    if t <= 0 { s } else { sha_step(sha_rounds(s, b, t - 1), k256()[t - 1], wt(b, t - 1)) }
}
#[verifier::opaque]
pub open spec fn sha_compress(s: Seq<u32>, b: Seq<u8>) -> Seq<u32> {
    let e = sha_rounds(s, b, 64);
    Seq::new(8, |i: int| add32(s[i], e[i]))
}
// state after the first n blocks of the padded message
#[verifier::opaque]
pub open spec fn sha_blocks(m: Seq<u8>, n: int) -> Seq<u32>
    decreases n
{
    if n <= 0 { h256() } else { sha_compress(sha_blocks(m, n - 1), m.subrange(64 * (n - 1), 64 * n)) }
}
#[verifier::opaque]
pub open spec fn be64_bytes(x: nat) -> Seq<u8> {
    seq![((x / 0x100_0000_0000_0000) % 256) as u8, ((x / 0x1_0000_0000_0000) % 256) as u8,
         ((x / 0x100_0000_0000) % 256) as u8, ((x / 0x1_0000_0000) % 256) as u8,
         ((x / 0x100_0000) % 256) as u8, ((x / 0x1_0000) % 256) as u8, ((x / 0x100) % 256) as u8, (x % 256) as u8]
}
// 5.1.1: append bit 1, the least number of zero bits, and the bit length
pub open spec fn zeros(l: nat) -> nat { ((64 + 55 - l % 64) % 64) as nat }
#[verifier::opaque]
pub open spec fn sha_pad(m: Seq<u8>) -> Seq<u8> {
    m + seq![0x80u8] + Seq::new(zeros(m.len()), |i: int| 0u8) + be64_bytes(8 * m.len())
}
#[verifier::opaque]
pub open spec fn sha256_spec(m: Seq<u8>) -> Seq<u8> {
    let p = sha_pad(m);
    let st = sha_blocks(p, (p.len() / 64) as int);
    Seq::new(32, |i: int| be32_bytes(st[i / 4])[i % 4])
}
proof fn lemma_add32_assoc(a: u32, b: u32, c: u32, d: u32)
    ensures add32(add32(add32(a, b), c), d) == add32(add32(add32(b, c), a), d)
{}
proof fn lemma_pad_len(l: nat)
    ensures (l + 1 + zeros(l) + 8) % 64 == 0, zeros(l) < 64
{}
proof fn lemma_be64_step(x: u64, i: u64)
    requires i < 8
    ensures ((x >> (8 * i)) as u8) == be64_bytes(x as nat)[7 - i as int], be64_bytes(x as nat).len() == 8
{
    reveal(be64_bytes);
    assert(((x >> 0u64) as u8) == (x % 256) as u8) by (bit_vector);
    assert(((x >> 8u64) as u8) == ((x / 0x100) % 256) as u8) by (bit_vector);
    assert(((x >> 16u64) as u8) == ((x / 0x10000) % 256) as u8) by (bit_vector);
    assert(((x >> 24u64) as u8) == ((x / 0x1000000) % 256) as u8) by (bit_vector);
    assert(((x >> 32u64) as u8) == ((x / 0x1_0000_0000) % 256) as u8) by (bit_vector);
    assert(((x >> 40u64) as u8) == ((x / 0x100_0000_0000) % 256) as u8) by (bit_vector);
    assert(((x >> 48u64) as u8) == ((x / 0x1_0000_0000_0000) % 256) as u8) by (bit_vector);
    assert(((x >> 56u64) as u8) == ((x / 0x100_0000_0000_0000) % 256) as u8) by (bit_vector);
}
//@const K
    ensures K@ == k256()
//@consthint K
    proof { reveal(k256); assert(__ret@ =~= k256()); }
//@const INIT_VECTOR
    ensures INIT_VECTOR@ == h256()
//@consthint INIT_VECTOR
    proof { reveal(h256); assert(__ret@ =~= h256()); }
//@fn sha256
    requires msg@.len() < 0x2000_0000_0000_0000,
    ensures r@ == sha256_spec(msg@),
//@attr #[verifier::loop_isolation(true)]
//@hint start
    let ghost m0 = msg@;
    let ghost pm = sha_pad(m0);
    proof { lemma_pad_len(m0.len()); }
//@hint after /let padding_len/
    proof {
        let l = len as u64;
        let p0 = vstd::wrapping::u64_specs::wrapping_sub(55u64, l);
        assert((p0 & 63) == p0 % 64) by (bit_vector);
        assert(padding_len == zeros(m0.len()));
    }
//@hint loop 0 before
    let ghost m1 = msg@;
//@loop 0 it
    invariant msg@ == m1 + Seq::new(it.index@ as nat, |i: int| 0u8),
//@hint loop 0 end
    proof { assert(msg@ =~= m1 + Seq::new((it.index@ + 1) as nat, |i: int| 0u8)); }
//@hint loop 1 before
    let ghost m2 = msg@;
    proof { assert(m2.len() == m0.len() + 1 + zeros(m0.len())); }
//@loop 1 it
    invariant 
        bitlen == 8 * m0.len(),
        msg@ == m2 + be64_bytes(8 * m0.len()).subrange(0, it.index@ as int),
//@hint loop 1 start
    proof { lemma_be64_step(bitlen, i as u64); }
//@hint loop 1 end
    proof {
        let be = be64_bytes(8 * m0.len());
        assert(be.subrange(0, it.index@ + 1) =~= be.subrange(0, it.index@ as int).push(be[it.index@ as int]));
        assert(msg@ =~= m2 + be.subrange(0, it.index@ + 1));
    }
//@hint loop 1 after
    proof {
        let be = be64_bytes(8 * m0.len());
        lemma_be64_step(bitlen, 0);
        assert(be.subrange(0, 8) =~= be);
        reveal(sha_pad);
        assert(msg@ =~= pm);
        lemma_pad_len(m0.len());
    }
//@hint loop 2 before
    proof { reveal(sha_blocks); }
//@loop 2
    invariant
        msg@ == pm, nblk == msg@.len() / 64, nblk < 0x400_0000_0000_0000,
        val@ == sha_blocks(pm, i as int),
//@hint loop 2 start
    let ghost blk = msg@.subrange(64 * i, 64 * i + 64);
    let ghost st0 = val@;
    proof {
        assert(64 * i + 64 <= msg@.len());
    }
//@hint loop 3 before
    proof {
        assert forall|k: int| 0 <= k < 16 implies w@[k] == wt(blk, k) by {
            reveal(wt);
            assert(msg@.subrange(64 * i, 64 * i + 64)[4 * k] == msg@[64 * i + 4 * k]);
            assert(w@[k] == be32(blk, 4 * k));
        }
    }
//@loop 3
    invariant
        forall|k: int| 0 <= k < j ==> w@[k] == wt(blk, k),
//@hint before /w \[j\] =/
    proof {
        lemma_add32_assoc(sig0, sig1, w@[j - 7], w@[j - 16]);
        assert(sig0 == ssig0(wt(blk, j - 15)));
        assert(sig1 == ssig1(wt(blk, j - 2)));
    }
//@hint loop 3 end
    proof {
        assert(w@[j - 7] == wt(blk, j - 7));
        assert(w@[j - 16] == wt(blk, j - 16));
        assert(w@[j as int] == add32(add32(add32(ssig1(wt(blk, j - 2)), wt(blk, j - 7)), ssig0(wt(blk, j - 15))), wt(blk, j - 16)));
        assert(w@[j as int] == wt(blk, j as int)) by { reveal(wt); }
    }
//@hint loop 4 before
    proof {
        assert(seq![a, b, c, d, e, f, g, h] =~= st0);
        assert(sha_rounds(st0, blk, 0) == st0) by { reveal(sha_rounds); }
    }
//@loop 4
    invariant
        forall|k: int| 0 <= k < 64 ==> w@[k] == wt(blk, k),
        seq![a, b, c, d, e, f, g, h] == sha_rounds(st0, blk, j as int),
//@hint loop 4 start
    let ghost s = seq![a, b, c, d, e, f, g, h];
//@hint loop 4 end
    proof {
        assert(seq![a, b, c, d, e, f, g, h] =~= sha_step(s, k256()[j as int], wt(blk, j as int))) by { reveal(sha_step); }
        assert(sha_rounds(st0, blk, j + 1) == sha_step(s, k256()[j as int], wt(blk, j as int))) by { reveal(sha_rounds); }
    }
//@hint loop 2 end
    proof {
        assert(blk == msg@.subrange(64 * ((i + 1) - 1), 64 * (i + 1)));
        assert(val@ =~= sha_compress(st0, blk)) by { reveal(sha_compress); }
        assert(sha_blocks(pm, i + 1) == sha_compress(st0, blk)) by { reveal(sha_blocks); }
    }
//@hint ret
    proof { reveal(sha256_spec); assert(__ret@ =~= sha256_spec(m0)); }
