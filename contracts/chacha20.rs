//@module crypto::chacha20
//@spec
// RFC 7539, sections 2.1 - 2.4
pub open spec fn qr(a: u32, b: u32, c: u32, d: u32) -> (u32, u32, u32, u32) {
    let a1 = add32(a, b);
    let d1 = rotl32(d ^ a1, 16);
    let c1 = add32(c, d1);
    let b1 = rotl32(b ^ c1, 12);
    let a2 = add32(a1, b1);
    let d2 = rotl32(d1 ^ a2, 8);
    let c2 = add32(c1, d2);
    let b2 = rotl32(b1 ^ c2, 7);
    (a2, b2, c2, d2)
}
// QUARTERROUND(x, y, z, w) on the state
#[verifier::opaque]
pub open spec fn qround(s: Seq<u32>, x: int, y: int, z: int, w: int) -> Seq<u32> {
    let (a, b, c, d) = qr(s[x], s[y], s[z], s[w]);
    s.update(x, a).update(y, b).update(z, c).update(w, d)
}
#[verifier::opaque]
pub open spec fn double_round(s: Seq<u32>) -> Seq<u32> {
    let s1 = qround(s, 0, 4, 8, 12);
    let s2 = qround(s1, 1, 5, 9, 13);
    let s3 = qround(s2, 2, 6, 10, 14);
    let s4 = qround(s3, 3, 7, 11, 15);
    let s5 = qround(s4, 0, 5, 10, 15);
    let s6 = qround(s5, 1, 6, 11, 12);
    let s7 = qround(s6, 2, 7, 8, 13);
    let s8 = qround(s7, 3, 4, 9, 14);
    s8
}
#[verifier::opaque]
pub open spec fn double_rounds(s: Seq<u32>, n: int) -> Seq<u32>
    decreases n
{
    if n <= 0 { s } else { double_round(double_rounds(s, n - 1)) }
}
// the block function on an initial state, as 16 words and as 64 bytes
pub open spec fn chacha_words(s: Seq<u32>) -> Seq<u32> {
    let e = double_rounds(s, 10);
    Seq::new(16, |i: int| add32(e[i], s[i]))
}
#[verifier::opaque]
pub open spec fn chacha_bytes(s: Seq<u32>) -> Seq<u8> {
    Seq::new(64, |i: int| le32_bytes(chacha_words(s)[i / 4])[i % 4])
}
// the initial state for a key, nonce and block counter
#[verifier::opaque]
pub open spec fn chacha_state(key: Seq<u8>, nonce: Seq<u8>, ctr: u32) -> Seq<u32> {
    seq![0x61707865u32, 0x3320646e, 0x79622d32, 0x6b206574,
         le32(key, 0), le32(key, 4), le32(key, 8), le32(key, 12),
         le32(key, 16), le32(key, 20), le32(key, 24), le32(key, 28),
         ctr, le32(nonce, 0), le32(nonce, 4), le32(nonce, 8)]
}
// the state n blocks later
pub open spec fn later(s: Seq<u32>, n: int) -> Seq<u32> { s.update(12, (s[12] + n) as u32) }
pub open spec fn blocks_for(len: int) -> int { (len + 63) / 64 }
#[verifier::opaque]
pub open spec fn xor_stream(s: Seq<u32>, data: Seq<u8>) -> Seq<u8> {
    Seq::new(data.len(), |i: int| data[i] ^ chacha_bytes(later(s, i / 64))[i % 64])
}
// C03: the same operation from the same state restores the input
pub proof fn lemma_xor_twice(s: Seq<u32>, data: Seq<u8>)
    ensures xor_stream(s, xor_stream(s, data)) == data, xor_stream(s, data).len() == data.len()
{
    reveal(xor_stream);
    let e = xor_stream(s, data);
    assert forall|i: int| 0 <= i < data.len() implies xor_stream(s, e)[i] == data[i] by {
        let a = data[i];
        let b = chacha_bytes(later(s, i / 64))[i % 64];
        assert((a ^ b) ^ b == a) by (bit_vector);
    }
    assert(xor_stream(s, e) =~= data);
}
//@fn ChaCha20::new
    requires key@.len() == 32, nonce@.len() == 12,
    ensures r.vals@ == chacha_state(key@, nonce@, 0),
//@hint ret
    proof { reveal(chacha_state); assert(__ret.vals@ =~= chacha_state(key@, nonce@, 0)); }
//@fn ChaCha20::round20
    ensures r@ == chacha_words(self.vals@),
//@attr #[verifier::loop_isolation(true)]
//@loop 0 it
    invariant vals@ == double_rounds(self.vals@, it.index@),
//@hint loop 0 before
    proof { assert(vals@ == double_rounds(self.vals@, 0)) by { reveal(double_rounds); } }
//@hint before /\{/ #0
    let ghost s0 = vals@;
//@block /\{/ #0
    invariant_except_break vals@ == s0,
    ensures vals@ == qround(s0, 0, 4, 8, 12),
    decreases 0int
//--
    proof { reveal(qround); assert(vals@ =~= qround(s0, 0, 4, 8, 12)); }
//@hint before /\{/ #1
    let ghost s1 = vals@;
//@block /\{/ #1
    invariant_except_break vals@ == s1,
    ensures vals@ == qround(s1, 1, 5, 9, 13),
    decreases 0int
//--
    proof { reveal(qround); assert(vals@ =~= qround(s1, 1, 5, 9, 13)); }
//@hint before /\{/ #2
    let ghost s2 = vals@;
//@block /\{/ #2
    invariant_except_break vals@ == s2,
    ensures vals@ == qround(s2, 2, 6, 10, 14),
    decreases 0int
//--
    proof { reveal(qround); assert(vals@ =~= qround(s2, 2, 6, 10, 14)); }
//@hint before /\{/ #3
    let ghost s3 = vals@;
//@block /\{/ #3
    invariant_except_break vals@ == s3,
    ensures vals@ == qround(s3, 3, 7, 11, 15),
    decreases 0int
//--
    proof { reveal(qround); assert(vals@ =~= qround(s3, 3, 7, 11, 15)); }
//@hint before /\{/ #4
    let ghost s4 = vals@;
//@block /\{/ #4
    invariant_except_break vals@ == s4,
    ensures vals@ == qround(s4, 0, 5, 10, 15),
    decreases 0int
//--
    proof { reveal(qround); assert(vals@ =~= qround(s4, 0, 5, 10, 15)); }
//@hint before /\{/ #5
    let ghost s5 = vals@;
//@block /\{/ #5
    invariant_except_break vals@ == s5,
    ensures vals@ == qround(s5, 1, 6, 11, 12),
    decreases 0int
//--
    proof { reveal(qround); assert(vals@ =~= qround(s5, 1, 6, 11, 12)); }
//@hint before /\{/ #6
    let ghost s6 = vals@;
//@block /\{/ #6
    invariant_except_break vals@ == s6,
    ensures vals@ == qround(s6, 2, 7, 8, 13),
    decreases 0int
//--
    proof { reveal(qround); assert(vals@ =~= qround(s6, 2, 7, 8, 13)); }
//@hint before /\{/ #7
    let ghost s7 = vals@;
//@block /\{/ #7
    invariant_except_break vals@ == s7,
    ensures vals@ == qround(s7, 3, 4, 9, 14),
    decreases 0int
//--
    proof { reveal(qround); assert(vals@ =~= qround(s7, 3, 4, 9, 14)); }
//@hint loop 0 end
    proof {
        assert(vals@ =~= double_round(s0)) by { reveal(double_round); }
        assert(double_rounds(self.vals@, it.index@ + 1) == double_round(s0)) by { reveal(double_rounds); }
    }
//@hint loop 1 before
    let ghost e = vals@;
//@loop 1
    invariant
        e == double_rounds(self.vals@, 10),
        forall|k: int| i <= k < 16 ==> vals@[k] == e[k],
        forall|k: int| 0 <= k < i ==> vals@[k] == add32(e[k], self.vals@[k]),
//@hint ret
    proof { assert(__ret@ =~= chacha_words(self.vals@)); }
//@fn ChaCha20::next
    requires old(self).vals[12] < u32::MAX,
    ensures
        r@ == chacha_bytes(old(self).vals@),
        final(self).vals@ == later(old(self).vals@, 1),
//@hint ret
    proof { reveal(chacha_bytes); assert(__ret@ =~= chacha_bytes(old(self).vals@)); assert(self.vals@ =~= later(old(self).vals@, 1)); }
//@fn ChaCha20::encrypt
    requires old(self).vals[12] + blocks_for(data@.len() as int) <= u32::MAX,
    ensures
        r@ == xor_stream(old(self).vals@, data@),
        final(self).vals@ == later(old(self).vals@, blocks_for(data@.len() as int)),
//@attr #[verifier::loop_isolation(true)]
//@hint start
    let ghost s0 = self.vals@;
    let ghost mut n: int = 0;
    proof { assert(later(s0, 0) =~= s0); }
//@loop 0
    invariant
        0 <= n,
        s0.len() == 16,
        s0 == old(self).vals@,
        self.vals@ == later(s0, n),
        s0[12] + blocks_for(data@.len() as int) <= u32::MAX,
        __pos1 == if 64 * n < data@.len() { 64 * n } else { data@.len() as int },
        n <= blocks_for(data@.len() as int),
        ret@.len() == __pos1,
        forall|i: int| 0 <= i < __pos1 ==> ret@[i] == #[trigger] data@[i] ^ chacha_bytes(later(s0, i / 64))[i % 64],
    decreases data@.len() - __pos1,
//@hint loop 0 start
    let ghost p0 = __pos1 as int;
    let ghost r0 = ret@;
    proof { assert(n < blocks_for(data@.len() as int)); }
//@hint after /let next =/
    let ghost st = later(s0, n);
    proof {
        assert(later(st, 1) =~= later(s0, n + 1));
        n = n + 1;
        reveal(chacha_bytes);
    }
//@loop 1
    invariant
        next@ == chacha_bytes(st),
        next@.len() == 64,
        chunk@.len() <= 64,
        ret@.len() == r0.len() + __k3,
        forall|i: int| 0 <= i < r0.len() ==> ret@[i] == r0[i],
        forall|i: int| r0.len() <= i < ret@.len() ==> ret@[i] == chunk@[i - r0.len()] ^ next@[i - r0.len()],
//@hint loop 1 end
    proof {
        let a = chunk@[__k3 as int];
        let b = next@[__k3 as int];
        assert(a ^ b == b ^ a) by (bit_vector);
    }
//@hint loop 0 end
    proof {
        assert forall|i: int| 0 <= i < __pos1 implies ret@[i] == #[trigger] data@[i] ^ chacha_bytes(later(s0, i / 64))[i % 64] by {
            if i >= p0 {
                assert(i / 64 == n - 1 && i % 64 == i - p0);
                assert(ret@[i] == chunk@[i - p0] ^ next@[i - p0]);
                assert(chunk@[i - p0] == data@[i]);
            }
        }
    }
//@hint ret
    proof { reveal(xor_stream); assert(__ret@ =~= xor_stream(s0, data@)); }
