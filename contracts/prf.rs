//@module cipher::prf
//@spec
// RFC 2104: HMAC with SHA-256 (block size 64)
pub open spec fn hmac_k0(key: Seq<u8>) -> Seq<u8> {
    let k = if key.len() > 64 { crate::crypto::sha2::sha256_spec(key) } else { key };
    Seq::new(64, |i: int| if i < k.len() { k[i] } else { 0 })
}
pub open spec fn xor_all(s: Seq<u8>, b: u8) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i] ^ b) }
#[verifier::opaque]
pub open spec fn hmac_spec(key: Seq<u8>, msg: Seq<u8>) -> Seq<u8> {
    crate::crypto::sha2::sha256_spec(xor_all(hmac_k0(key), 0x5c) + crate::crypto::sha2::sha256_spec(xor_all(hmac_k0(key), 0x36) + msg))
}
// RFC 5246, section 5: A(i) counted from a given A value, and the bytes of
// HMAC(secret, A(1) + seed) + HMAC(secret, A(2) + seed) + ... from there
pub open spec fn a_iter(secret: Seq<u8>, a: Seq<u8>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { a } else { hmac_spec(secret, a_iter(secret, a, n - 1)) }
}
pub open spec fn p_byte(secret: Seq<u8>, seed: Seq<u8>, a: Seq<u8>, i: int) -> u8 {
    hmac_spec(secret, a_iter(secret, a, i / 32) + seed)[i % 32]
}
// the first n bytes of P_SHA256(secret, seed): A(1) = HMAC(secret, seed)
pub open spec fn p_hash(secret: Seq<u8>, seed: Seq<u8>, n: int) -> Seq<u8> {
    Seq::new(n as nat, |i: int| p_byte(secret, seed, hmac_spec(secret, seed), i))
}
impl Prf {
    // the i-th byte this generator has still to deliver
    pub open spec fn pending(&self, i: int) -> u8 {
        if i < self.buf@.len() { self.buf@[i] } else { p_byte(self.secret@, self.seed@, self.a@, i - self.buf@.len()) }
    }
    pub open spec fn ok(&self) -> bool {
        self.secret@.len() < 0x1000_0000_0000_0000 && self.seed@.len() < 0x1000_0000_0000_0000
    }
}
pub proof fn lemma_hmac_len(key: Seq<u8>, msg: Seq<u8>)
    ensures hmac_spec(key, msg).len() == 32
{ reveal(hmac_spec); reveal(crate::crypto::sha2::sha256_spec); }
proof fn lemma_a_shift(secret: Seq<u8>, a: Seq<u8>, n: int)
    requires n >= 0
    ensures a_iter(secret, hmac_spec(secret, a), n) == a_iter(secret, a, n + 1)
    decreases n
{
    if n > 0 { lemma_a_shift(secret, a, n - 1); } else {
        assert(a_iter(secret, a, 1) == hmac_spec(secret, a_iter(secret, a, 0)));
    }
}
// C02: the reads, concatenated, are a prefix of P_SHA256: if every read
// delivers the pending bytes and advances by their number, so does any history
pub open spec fn reads_concat(reads: Seq<Seq<u8>>) -> Seq<u8>
    decreases reads.len()
{ if reads.len() == 0 { Seq::empty() } else { reads_concat(reads.drop_last()) + reads.last() } }
pub open spec fn read_step(p: Prf, q: Prf, r: Seq<u8>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> r[i] == #[trigger] p.pending(i)
    &&& forall|i: int| i >= 0 ==> #[trigger] q.pending(i) == p.pending(r.len() + i)
}
pub proof fn lemma_history(ps: Seq<Prf>, reads: Seq<Seq<u8>>)
    requires
        ps.len() == reads.len() + 1,
        ps[0].buf@.len() == 0, ps[0].a@ == hmac_spec(ps[0].secret@, ps[0].seed@),
        forall|k: int| 0 <= k < reads.len() ==> read_step(#[trigger] ps[k], ps[k + 1], reads[k]),
    ensures
        reads_concat(reads) == p_hash(ps[0].secret@, ps[0].seed@, reads_concat(reads).len() as int),
        forall|i: int| i >= 0 ==> #[trigger] ps.last().pending(i) == ps[0].pending(reads_concat(reads).len() + i),
    decreases reads.len()
{
    if reads.len() > 0 {
        let k = reads.len() - 1;
        lemma_history(ps.drop_last(), reads.drop_last());
        assert(read_step(ps[k], ps[k + 1], reads[k]));
        let pre = reads_concat(reads.drop_last());
        assert(reads_concat(reads) == pre + reads[k]);
        assert(ps.drop_last().last() == ps[k]);
        assert forall|i: int| 0 <= i < reads_concat(reads).len() implies reads_concat(reads)[i] == p_hash(ps[0].secret@, ps[0].seed@, reads_concat(reads).len() as int)[i] by {
            if i >= pre.len() {
                let j = i - pre.len();
                assert(ps[k].pending(j) == ps[0].pending(pre.len() + j));
            } else {
                assert(pre[i] == p_hash(ps[0].secret@, ps[0].seed@, pre.len() as int)[i]);
            }
        }
        assert forall|i: int| i >= 0 implies #[trigger] ps.last().pending(i) == ps[0].pending(reads_concat(reads).len() + i) by {
            assert(ps[k].pending(reads[k].len() + i) == ps[0].pending(pre.len() + (reads[k].len() + i)));
        }
    }
    assert(reads_concat(reads) =~= p_hash(ps[0].secret@, ps[0].seed@, reads_concat(reads).len() as int));
}
//@fn hmac_sha256
    requires key@.len() < 0x2000_0000_0000_0000, msg@.len() < 0x1fff_ffff_ffff_ff00,
    ensures r@ == hmac_spec(key@, msg@),
//@hint start
    let ghost key0 = key@;
//@hint before /let mut i_msg/
    let ghost k0 = hmac_k0(key0);
    proof {
        reveal(crate::crypto::sha2::sha256_spec);
        assert(key@ == if key0.len() > 64 { crate::crypto::sha2::sha256_spec(key0) } else { key0 });
        assert(key@.len() <= 64);
        assert(0x36u8 ^ 0u8 == 0x36u8 && 0u8 ^ 0x36u8 == 0x36u8 && 0u8 ^ 0x5cu8 == 0x5cu8) by (bit_vector);
    }
//@loop 0
    invariant
        key@.len() <= 64, i_msg@.len() == 64, o_msg@.len() == 64,
        forall|k: int| 0 <= k < 64 ==> #[trigger] i_msg@[k] == (if k < i { k0[k] } else { 0u8 }) ^ 0x36,
        forall|k: int| 0 <= k < 64 ==> #[trigger] o_msg@[k] == (if k < i { k0[k] } else { 0u8 }) ^ 0x5c,
//@hint loop 0 start
    proof {
        let x = key@[i as int];
        assert((0u8 ^ 0x36u8) ^ x == x ^ 0x36u8 && (0u8 ^ 0x5cu8) ^ x == x ^ 0x5cu8) by (bit_vector);
        assert(x == k0[i as int]);
    }
//@hint loop 0 after
    proof {
        assert(i_msg@ =~= xor_all(k0, 0x36));
        assert(o_msg@ =~= xor_all(k0, 0x5c));
    }
//@hint ret
    proof { reveal(hmac_spec); }
//@fn Prf::new
    requires secret@.len() < 0x1000_0000_0000_0000, seed@.len() < 0x1000_0000_0000_0000,
    ensures
        r.secret@ == secret@, r.seed@ == seed@, r.buf@.len() == 0, r.ok(),
        r.a@ == hmac_spec(secret@, seed@),
        forall|n: int| #![trigger p_hash(secret@, seed@, n)] n >= 0 ==> p_hash(secret@, seed@, n) =~= Seq::new(n as nat, |i: int| r.pending(i)),
//@fn Prf::next_block
    requires old(self).ok(),
    ensures
        r@ == hmac_spec(old(self).secret@, old(self).a@ + old(self).seed@),
        final(self).a@ == hmac_spec(old(self).secret@, old(self).a@),
        final(self).secret@ == old(self).secret@, final(self).seed@ == old(self).seed@, final(self).buf@ == old(self).buf@,
//@fn Prf::get_bytes
    requires old(self).ok(),
    ensures
        r@.len() == size,
        forall|i: int| 0 <= i < size ==> r@[i] == #[trigger] old(self).pending(i),
        forall|i: int| i >= 0 ==> #[trigger] final(self).pending(i) == old(self).pending(size + i),
        final(self).ok(), final(self).secret@ == old(self).secret@, final(self).seed@ == old(self).seed@,
//@attr #[verifier::loop_isolation(true)]
//@hint start
    let ghost p0 = *self;
    let ghost mut before = *self;
//@loop 0
    invariant
        self.ok(), self.secret@ == p0.secret@, self.seed@ == p0.seed@,
        ret@.len() <= size,
        forall|i: int| 0 <= i < ret@.len() ==> ret@[i] == #[trigger] p0.pending(i),
        forall|i: int| i >= 0 ==> #[trigger] self.pending(i) == p0.pending(ret@.len() + i),
        self.buf@.len() == 0 || ret@.len() == size,
    ensures
        ret@.len() == size,
    decreases size - ret@.len(),
//@hint loop 0 start
    let ghost ret0 = ret@;
    let ghost st = *self;
//@hint after /let next_block =/
    proof {
        lemma_hmac_len(st.secret@, st.a@ + st.seed@);
        assert(a_iter(st.secret@, st.a@, 0) == st.a@);
        assert forall|i: int| 0 <= i < 32 implies next_block@[i] == #[trigger] st.pending(i) by {}
        assert forall|i: int| i >= 0 implies #[trigger] self.pending(i) == st.pending(32 + i) by {
            lemma_a_shift(st.secret@, st.a@, i / 32);
            assert((32 + i) / 32 == i / 32 + 1 && (32 + i) % 32 == i % 32);
        }
    }
//@hint before /break/
    proof {
        assert forall|i: int| 0 <= i < ret@.len() implies ret@[i] == #[trigger] p0.pending(i) by {
            if i >= ret0.len() { assert(st.pending(i - ret0.len()) == p0.pending(ret0.len() + (i - ret0.len()))); }
        }
        assert forall|i: int| i >= 0 implies #[trigger] self.pending(i) == p0.pending(ret@.len() + i) by {
            assert(st.pending(slice_len + i) == p0.pending(ret0.len() + (slice_len + i)));
            if i < self.buf@.len() {
                assert(self.buf@[i] == next_block@[slice_len + i]);
            } else {
                let j = i - self.buf@.len();
                assert(self.a@ == hmac_spec(st.secret@, st.a@));
                lemma_a_shift(st.secret@, st.a@, j / 32);
                assert((32 + j) / 32 == j / 32 + 1 && (32 + j) % 32 == j % 32);
                assert(st.pending(32 + j) == p0.pending(ret0.len() + (32 + j)));
            }
        }
    }
//@hint loop 0 end
    proof {
        assert forall|i: int| 0 <= i < ret@.len() implies ret@[i] == #[trigger] p0.pending(i) by {
            if i >= ret0.len() { assert(st.pending(i - ret0.len()) == p0.pending(ret0.len() + (i - ret0.len()))); }
        }
        assert forall|i: int| i >= 0 implies #[trigger] self.pending(i) == p0.pending(ret@.len() + i) by {
            assert(st.pending(32 + i) == p0.pending(ret0.len() + (32 + i)));
        }
    }
