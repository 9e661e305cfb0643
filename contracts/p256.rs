//@module crypto::p256::int256
//@spec
// ---- 2^32-radix numbers
pub open spec fn pw(i: nat) -> int
    decreases i
{ if i == 0 { 1 } else { 0x1_0000_0000 * pw((i - 1) as nat) } }
pub open spec fn limbs(s: Seq<Wrapping<u32>>, n: nat) -> int
    decreases n
{ if n == 0 { 0 } else { limbs(s, (n - 1) as nat) + (s[n - 1].0 as int) * pw((n - 1) as nat) } }
// 2^256 - 2^224 + 2^192 + 2^96 - 1
#[verifier::opaque]
pub open spec fn p256() -> int { pw(8) - pw(7) + pw(6) + pw(3) - 1 }
// the residue modulo the prime
#[verifier::opaque]
pub open spec fn md(x: int) -> int { x % p256() }
// the value of a carry out
pub open spec fn cy(c: Wrapping<u32>) -> int { if c.0 == 0 { 0 } else { pw(8) } }
proof fn lemma_cy(c: Wrapping<u64>)
    requires c.0 <= 1
    ensures c.0 * pw(8) == if c.0 == 0 { 0 } else { pw(8) }, c.0 as u32 == c.0
{
    assert(0 * pw(8) == 0 && 1 * pw(8) == pw(8));
}
impl Int256 {
    pub open spec fn val(&self) -> int { limbs(self.v@, 8) }
    pub open spec fn ok(&self) -> bool { self.val() < p256() }
}
pub proof fn lemma_pw()
    ensures
        pw(0) == 1, pw(1) == 0x1_0000_0000, pw(2) == 0x1_0000_0000int * 0x1_0000_0000, pw(3) == 0x1_0000_0000_0000_0000_0000_0000int, pw(4) == 0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int,
        pw(5) == 0x1_0000_0000 * pw(4), pw(6) == 0x1_0000_0000 * pw(5), pw(7) == 0x1_0000_0000 * pw(6), pw(8) == 0x1_0000_0000 * pw(7),
        0 < p256() < pw(8) < 2 * p256(),
{
    reveal(p256);
    reveal_with_fuel(pw, 9);
}
pub proof fn lemma_pw_pos(n: nat)
    ensures pw(n) > 0
    decreases n
{ if n > 0 { lemma_pw_pos((n - 1) as nat); } }
pub proof fn lemma_limbs_bound(s: Seq<Wrapping<u32>>, n: nat)
    ensures 0 <= limbs(s, n) < pw(n)
    decreases n
{
    if n > 0 {
        lemma_limbs_bound(s, (n - 1) as nat);
        let q = pw((n - 1) as nat);
        let x = s[n - 1].0 as int;
        assert(0 <= x * q <= 0xffff_ffff * q) by (nonlinear_arith) requires q > 0, 0 <= x <= 0xffff_ffff;
    }
}
pub proof fn lemma_limbs_eq(s: Seq<Wrapping<u32>>, t: Seq<Wrapping<u32>>, n: nat)
    requires forall|i: int| 0 <= i < n ==> s[i] == t[i]
    ensures limbs(s, n) == limbs(t, n)
    decreases n
{ if n > 0 { lemma_limbs_eq(s, t, (n - 1) as nat); } }
// the value determines the limbs
pub proof fn lemma_limbs_inj(s: Seq<Wrapping<u32>>, t: Seq<Wrapping<u32>>, n: nat)
    requires limbs(s, n) == limbs(t, n)
    ensures forall|i: int| 0 <= i < n ==> s[i] == t[i]
    decreases n
{
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_limbs_bound(s, m);
        lemma_limbs_bound(t, m);
        let (x, y, q, a, b) = (s[n - 1].0 as int, t[n - 1].0 as int, pw(m), limbs(s, m), limbs(t, m));
        assert(x == y) by (nonlinear_arith) requires a + x * q == b + y * q, 0 <= a < q, 0 <= b < q;
        lemma_limbs_inj(s, t, m);
    }
}
pub proof fn lemma_bound(a: Int256)
    ensures 0 <= a.val() < pw(8)
{ lemma_limbs_bound(a.v@, 8); }
// ---- residues
pub proof fn lemma_md(x: int)
    ensures 0 <= md(x) < p256(), 0 <= x < p256() ==> md(x) == x, md(md(x)) == md(x),
        exists|k: int| x == md(x) + #[trigger] (k * p256())
{
    lemma_pw();
    reveal(md);
    let p = p256();
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, p);
    vstd::arithmetic::div_mod::lemma_mod_bound(x, p);
    if 0 <= x < p { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, p as nat); }
    vstd::arithmetic::div_mod::lemma_small_mod((x % p) as nat, p as nat);
    assert(x == md(x) + (x / p) * p) by (nonlinear_arith) requires x == p * (x / p) + x % p, md(x) == x % p;
}
pub proof fn lemma_md_add(x: int, k: int)
    ensures md(x + k * p256()) == md(x)
{
    lemma_pw();
    reveal(md);
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(k, x, p256());
    assert(p256() * k + x == x + k * p256()) by (nonlinear_arith);
}
// Horner form, linear in the limbs
#[verifier::opaque]
pub open spec fn lin8(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) -> int {
    a + 0x1_0000_0000 * (b + 0x1_0000_0000 * (c + 0x1_0000_0000 * (d + 0x1_0000_0000 * (e + 0x1_0000_0000 * (f + 0x1_0000_0000 * (g + 0x1_0000_0000 * h))))))
}
pub open spec fn lin(s: Seq<Wrapping<u32>>) -> int { lin8(s[0].0 as int, s[1].0 as int, s[2].0 as int, s[3].0 as int, s[4].0 as int, s[5].0 as int, s[6].0 as int, s[7].0 as int) }
pub open spec fn shl(x: int, i: nat) -> int
    decreases i
{ if i == 0 { x } else { 0x1_0000_0000 * shl(x, (i - 1) as nat) } }
pub proof fn lemma_shl(x: int, i: nat)
    ensures x * pw(i) == shl(x, i)
    decreases i
{
    if i > 0 {
        lemma_shl(x, (i - 1) as nat);
        let q = pw((i - 1) as nat);
        assert(x * (0x1_0000_0000 * q) == 0x1_0000_0000 * (x * q)) by (nonlinear_arith);
    }
}
pub proof fn lemma_lin(s: Seq<Wrapping<u32>>)
    ensures limbs(s, 8) == lin(s)
{
    reveal(lin8);
    reveal_with_fuel(limbs, 9);
    reveal_with_fuel(shl, 9);
    assert forall|i: int| 0 <= i < 8 implies (#[trigger] s[i]).0 * pw(i as nat) == shl(s[i].0 as int, i as nat) by { lemma_shl(s[i].0 as int, i as nat); }
    assert(forall|i: int| 0 <= i < 8 ==> #[trigger] s[i] == s[i]);
}
pub proof fn lemma_md2(x: int, y: int)
    ensures
        md(md(x) + md(y)) == md(x + y), md(md(x) - md(y)) == md(x - y), md(md(x) * md(y)) == md(x * y),
        md(x + md(y)) == md(x + y), md(md(x) + y) == md(x + y), md(x - md(y)) == md(x - y), md(md(x) - y) == md(x - y), md(md(x) * y) == md(x * y), md(x * md(y)) == md(x * y),
{
    let p = p256();
    lemma_md(x); lemma_md(y);
    let i = choose|i: int| x == md(x) + #[trigger] (i * p);
    let j = choose|j: int| y == md(y) + #[trigger] (j * p);
    let (u, v) = (md(x), md(y));
    lemma_md_add(u + v, i + j); lemma_md_add(u - v, i - j); lemma_md_add(u * v, u * j + i * y); lemma_md_add(u * y, i * y); lemma_md_add(x * v, x * j);
    lemma_md_add(x + v, j); lemma_md_add(u + y, i); lemma_md_add(x - v, -j); lemma_md_add(u - y, i);
    assert(u + v + (i + j) * p == x + y && u - v + (i - j) * p == x - y && -j * p == -(j * p)) by (nonlinear_arith) requires x == u + i * p, y == v + j * p;
    assert(u * v + (u * j + i * y) * p == x * y && u * y + (i * y) * p == x * y && x * v + (x * j) * p == x * y) by (nonlinear_arith) requires x == u + i * p, y == v + j * p;
}
//@const ZERO
    ensures ZERO.v@ =~= Seq::new(8, |i: int| Wrapping(0u32)), ZERO.val() == 0,
//@consthint ZERO
    proof { lemma_lin(__ret.v@); reveal(lin8); lemma_pw(); reveal(p256); }
//@const ONE
    ensures ONE.v@ =~= seq![Wrapping(1u32), Wrapping(0u32), Wrapping(0u32), Wrapping(0u32), Wrapping(0u32), Wrapping(0u32), Wrapping(0u32), Wrapping(0u32)], ONE.val() == 1,
//@consthint ONE
    proof { lemma_lin(__ret.v@); reveal(lin8); lemma_pw(); reveal(p256); }
//@const P256
    ensures P256.v@ =~= seq![Wrapping(0xffff_ffffu32), Wrapping(0xffff_ffffu32), Wrapping(0xffff_ffffu32), Wrapping(0u32), Wrapping(0u32), Wrapping(0u32), Wrapping(1u32), Wrapping(0xffff_ffffu32)], P256.val() == p256(),
//@consthint P256
    proof { lemma_lin(__ret.v@); reveal(lin8); lemma_pw(); reveal(p256); }
//@fn <Int256 as Clone>::clone
    ensures r == *self,
//@fn Int256::compare
    ensures r.0 <= 1, r.0 == 0 <==> self.val() == b.val(), r.0 == 0 <==> self.v@ == b.v@,
//@loop 0 it
    invariant it.index@ <= 8, diff.0 == 0 <==> forall|k: int| 0 <= k < it.index@ ==> self.v@[k] == b.v@[k],
//@hint loop 0 start
    proof {
        let (x, y, z) = (diff.0, self.v@[it.index@].0, b.v@[it.index@].0);
        assert((x | (y ^ z)) == 0 <==> x == 0 && y == z) by (bit_vector);
    }
//@hint loop 0 after
    proof {
        if diff.0 == 0 { assert(self.v@ =~= b.v@); }
        if self.val() == b.val() { lemma_limbs_inj(self.v@, b.v@, 8); }
    }
    let ghost d = diff.0;
//@hint ret
    proof {
        assert(({ let e = d | d >> 16; let f = e | e >> 8; let g = f | f >> 4; let h = g | g >> 2; let k = h | h >> 1; k & 1 }) == if d == 0 { 0u32 } else { 1u32 }) by (bit_vector);
    }
//@fn Int256::less_than
    ensures r == (self.val() < b.val()),
//@hint start
    proof { lemma_bound(*self); lemma_bound(*b); }
//@fn Int256::choose
    requires flag.0 <= 1
    ensures r.v@ == if flag.0 == 0 { a.v@ } else { b.v@ }, r.val() == if flag.0 == 0 { a.val() } else { b.val() },
//@loop 0 it
    invariant it.index@ <= 8, flag.0 <= 1, forall|k: int| 0 <= k < it.index@ ==> v@[k] == if flag.0 == 0 { a.v@[k] } else { b.v@[k] },
//@hint loop 0 start
    proof {
        let (x, y) = (a.v@[it.index@].0, b.v@[it.index@].0);
        assert((x ^ (x ^ y)) == y && (x ^ 0) == x) by (bit_vector);
        assert(flag.0 == 0 ==> flag.0 * (x ^ y) == 0) by (nonlinear_arith);
        assert(flag.0 == 1 ==> flag.0 * (x ^ y) == (x ^ y)) by (nonlinear_arith);
    }
//@hint loop 0 after
    proof { assert(v@ =~= if flag.0 == 0 { a.v@ } else { b.v@ }); }
//@fn Int256::add_no_reduce
    ensures r.0.val() + cy(r.1) == self.val() + b.val(), r.1.0 <= 1, 0 <= r.0.val() < pw(8),

//@loop 0 it
    invariant it.index@ <= 8, carry.0 <= 1, limbs(v.v@, it.index@ as nat) + carry.0 * pw(it.index@ as nat) == limbs(self.v@, it.index@ as nat) + limbs(b.v@, it.index@ as nat),
//@hint loop 0 after
    proof { lemma_cy(carry); lemma_bound(v); }
//@hint loop 0 start
    let ghost (c0, v0) = (carry.0, v.v@);
//@hint loop 0 end
    proof {
        let n = it.index@ as nat;
        let (x, y, z, c, q) = (self.v@[n as int].0 as int, b.v@[n as int].0 as int, v.v@[n as int].0 as int, carry.0 as int, pw(n));
        let s = add.0;
        assert(s == (s as u32) + 0x1_0000_0000 * (s >> 32)) by (bit_vector);
        assert(s >> 32 <= 1) by (bit_vector) requires s <= 0x1_ffff_ffff;
        assert(z * q + (c * 0x1_0000_0000) * q == x * q + y * q + c0 * q) by (nonlinear_arith) requires z + 0x1_0000_0000 * c == x + y + c0;
        assert((c * 0x1_0000_0000) * q == c * (0x1_0000_0000 * q)) by (nonlinear_arith);
        lemma_limbs_eq(v0, v.v@, n);
    }
//@fn Int256::sub_no_reduce
    ensures r.0.val() - cy(r.1) == self.val() - b.val(), r.1.0 <= 1, 0 <= r.0.val() < pw(8),
//@loop 0 it
    invariant it.index@ <= 8, carry_sub.0 <= 1, limbs(v.v@, it.index@ as nat) - carry_sub.0 * pw(it.index@ as nat) == limbs(self.v@, it.index@ as nat) - limbs(b.v@, it.index@ as nat),
//@hint loop 0 after
    proof { lemma_cy(carry_sub); lemma_bound(v); }
//@hint loop 0 start
    let ghost (c0, v0) = (carry_sub.0, v.v@);
//@hint loop 0 end
    proof {
        let n = it.index@ as nat;
        let (x, y, z, c, q) = (self.v@[n as int].0 as int, b.v@[n as int].0 as int, v.v@[n as int].0 as int, carry_sub.0 as int, pw(n));
        let s = sub.0;
        assert(s >> 63 == if s >= 0x8000_0000_0000_0000 { 1u64 } else { 0u64 }) by (bit_vector);
        assert(s as u32 == s % 0x1_0000_0000) by (bit_vector);
        assert(z * q - (c * 0x1_0000_0000) * q == x * q - y * q - c0 * q) by (nonlinear_arith) requires z - 0x1_0000_0000 * c == x - y - c0;
        assert((c * 0x1_0000_0000) * q == c * (0x1_0000_0000 * q)) by (nonlinear_arith);
        lemma_limbs_eq(v0, v.v@, n);
    }
//@fn Int256::reduce_once
    requires carry.0 <= 1, self.val() + cy(carry) < 2 * p256()
    ensures r.val() == md(self.val() + cy(carry)), r.ok(),
//@hint start
    proof {
        lemma_pw(); lemma_bound(*self);
        assert((1u32 ^ 0u32) == 1 && (0u32 ^ 1u32) == 1 && (1u32 ^ 1u32) == 0 && (0u32 ^ 0u32) == 0) by (bit_vector);
        let x = self.val() + cy(carry);
        lemma_md(x); lemma_md_add(x, -1); lemma_md(x - p256());
    }
//@fn Int256::reduce_once_zero
    ensures r.val() == md(self.val()), r.ok(),
//@hint start
    proof { lemma_pw(); lemma_bound(*self); }
//@fn Int256::add
    requires self.ok(), b.ok()
    ensures r.val() == md(self.val() + b.val()), r.ok(),
//@fn Int256::double
    requires self.ok()
    ensures r.val() == md(self.val() + self.val()), r.ok(),
//@fn Int256::sub
    requires self.ok(), b.ok()
    ensures r.val() == md(self.val() - b.val()), r.ok(),
//@hint start
    proof {
        lemma_pw(); lemma_bound(*self); lemma_bound(*b);
        let x = self.val() - b.val();
        lemma_md(x); lemma_md_add(x, 1); lemma_md(x + p256());
    }
//@spec
// ---- multiplication
pub open spec fn wl(s: Seq<Wrapping<u64>>, n: nat) -> int
    decreases n
{ if n == 0 { 0 } else { wl(s, (n - 1) as nat) + (s[n - 1].0 as int) * pw((n - 1) as nat) } }
proof fn lemma_wl_update(s: Seq<Wrapping<u64>>, k: int, x: Wrapping<u64>, n: nat)
    requires 0 <= k < s.len(), n <= s.len()
    ensures wl(s.update(k, x), n) == wl(s, n) + (if k < n { (x.0 - s[k].0) * pw(k as nat) } else { 0 })
    decreases n
{
    if n > 0 {
        lemma_wl_update(s, k, x, (n - 1) as nat);
        let q = pw((n - 1) as nat);
        let (a, b) = (x.0 as int, s[k].0 as int);
        assert(a * q == b * q + (a - b) * q) by (nonlinear_arith);
    }
}
proof fn lemma_wl_zero(s: Seq<Wrapping<u64>>, n: nat)
    requires n <= s.len(), forall|k: int| 0 <= k < n ==> s[k].0 == 0
    ensures wl(s, n) == 0
    decreases n
{
    if n > 0 {
        lemma_wl_zero(s, (n - 1) as nat);
        let q = pw((n - 1) as nat);
        assert(0 * q == 0);
    }
}
pub proof fn lemma_pw_add(i: nat, j: nat)
    ensures pw(i + j) == pw(i) * pw(j)
    decreases j
{
    if j == 0 { assert(pw(i) * 1 == pw(i)); } else {
        lemma_pw_add(i, (j - 1) as nat);
        let (a, b) = (pw(i), pw((j - 1) as nat));
        assert(a * (0x1_0000_0000 * b) == 0x1_0000_0000 * (a * b)) by (nonlinear_arith);
    }
}
// one step of the schoolbook product: x * y is added at column i + j
proof fn lemma_school(s: Seq<Wrapping<u64>>, t: Seq<Wrapping<u64>>, i: nat, j: nat, x: u32, y: u32, lo: u64, hi: u64)
    requires
        s.len() == 16, i < 8, j < 8, t == s.update((i + j) as int, Wrapping(lo)).update((i + j + 1) as int, Wrapping(((s[(i + j + 1) as int].0 + hi) as u64))),
        s[(i + j + 1) as int].0 + hi <= u64::MAX, lo + 0x1_0000_0000 * hi == s[(i + j) as int].0 + x * y,
    ensures wl(t, 16) == wl(s, 16) + (x * pw(i)) * (y * pw(j))
{
    let k = (i + j) as int;
    let m = s.update(k, Wrapping(lo));
    lemma_wl_update(s, k, Wrapping(lo), 16);
    lemma_wl_update(m, k + 1, Wrapping((s[k + 1].0 + hi) as u64), 16);
    lemma_pw_add(i, j);
    let (q, l, h, a, b) = (pw(k as nat), lo as int, hi as int, x as int, y as int);
    let w = s[k].0 as int;
    assert(pw((k + 1) as nat) == 0x1_0000_0000 * q);
    assert((l - w) * q + h * (0x1_0000_0000 * q) == (a * b) * q) by (nonlinear_arith) requires l + 0x1_0000_0000 * h == w + a * b;
    let (e, f) = (pw(i), pw(j));
    assert((a * b) * (e * f) == (a * e) * (b * f)) by (nonlinear_arith);
}
#[verifier::opaque]
pub open spec fn lin16(v0: int, v1: int, v2: int, v3: int, v4: int, v5: int, v6: int, v7: int, v8: int, v9: int, v10: int, v11: int, v12: int, v13: int, v14: int, v15: int) -> int { v0 + 0x1_0000_0000 * (v1 + 0x1_0000_0000 * (v2 + 0x1_0000_0000 * (v3 + 0x1_0000_0000 * (v4 + 0x1_0000_0000 * (v5 + 0x1_0000_0000 * (v6 + 0x1_0000_0000 * (v7 + 0x1_0000_0000 * (v8 + 0x1_0000_0000 * (v9 + 0x1_0000_0000 * (v10 + 0x1_0000_0000 * (v11 + 0x1_0000_0000 * (v12 + 0x1_0000_0000 * (v13 + 0x1_0000_0000 * (v14 + 0x1_0000_0000 * (v15))))))))))))))) }
#[verifier::opaque]
pub open spec fn nist_sum(v0: int, v1: int, v2: int, v3: int, v4: int, v5: int, v6: int, v7: int, v8: int, v9: int, v10: int, v11: int, v12: int, v13: int, v14: int, v15: int) -> int {
    lin8(v0, v1, v2, v3, v4, v5, v6, v7) + 2 * lin8(0, 0, 0, v11, v12, v13, v14, v15) + 2 * lin8(0, 0, 0, v12, v13, v14, v15, 0) + lin8(v8, v9, v10, 0, 0, 0, v14, v15) + lin8(v9, v10, v11, v13, v14, v15, v13, v8)
    - (lin8(v11, v12, v13, 0, 0, 0, v8, v10) + lin8(v12, v13, v14, v15, 0, 0, v9, v11) + lin8(v13, v14, v15, v8, v9, v10, 0, v12) + lin8(v14, v15, 0, v9, v10, v11, 0, v13))
}
#[verifier::opaque]
pub open spec fn nist_quot(v0: int, v1: int, v2: int, v3: int, v4: int, v5: int, v6: int, v7: int, v8: int, v9: int, v10: int, v11: int, v12: int, v13: int, v14: int, v15: int) -> int { lin8((1) * v8 + (1) * v9 + (-1) * v11 + (-1) * v12 + (-1) * v13 + (-1) * v14, (1) * v9 + (1) * v10 + (-1) * v12 + (-1) * v13 + (-1) * v14 + (-1) * v15, (1) * v10 + (1) * v11 + (-1) * v13 + (-1) * v14 + (-1) * v15, (1) * v11 + (1) * v12 + (-1) * v14 + (-1) * v15, (1) * v12 + (1) * v13 + (-1) * v15, (1) * v13 + (1) * v14, (1) * v14 + (1) * v15, (1) * v15) }
proof fn lemma_nist(v0: int, v1: int, v2: int, v3: int, v4: int, v5: int, v6: int, v7: int, v8: int, v9: int, v10: int, v11: int, v12: int, v13: int, v14: int, v15: int)
    ensures md(lin16(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15)) == md(nist_sum(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15))
{
    let k = nist_quot(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15);
    lemma_pw();
    reveal(p256);
    lemma_shl(k, 8); lemma_shl(k, 7); lemma_shl(k, 6); lemma_shl(k, 3);
    let (a, b, c, d, p) = (pw(8), pw(7), pw(6), pw(3), p256());
    assert(k * p == k * a - k * b + k * c + k * d - k) by (nonlinear_arith) requires p == a - b + c + d - 1;
    reveal_with_fuel(shl, 9);
    reveal(lin8); reveal(lin16); reveal(nist_quot); reveal(nist_sum);
    assert(lin16(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15) == nist_sum(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15) + k * p);
    lemma_md_add(nist_sum(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15), k);
}
proof fn lemma_lin16(s: Seq<Wrapping<u32>>)
    ensures limbs(s, 16) == lin16(s[0].0 as int, s[1].0 as int, s[2].0 as int, s[3].0 as int, s[4].0 as int, s[5].0 as int, s[6].0 as int, s[7].0 as int,
        s[8].0 as int, s[9].0 as int, s[10].0 as int, s[11].0 as int, s[12].0 as int, s[13].0 as int, s[14].0 as int, s[15].0 as int)
{
    reveal(lin16);
    reveal_with_fuel(limbs, 17);
    reveal_with_fuel(shl, 17);
    assert forall|i: int| 0 <= i < 16 implies (#[trigger] s[i]).0 * pw(i as nat) == shl(s[i].0 as int, i as nat) by { lemma_shl(s[i].0 as int, i as nat); }
    assert(forall|i: int| 0 <= i < 16 ==> #[trigger] s[i] == s[i]);
}
// the nine terms, each reduced, added up one after the other
proof fn lemma_nist_terms(t: int, s1: int, s2: int, s3: int, s4: int, d1: int, d2: int, d3: int, d4: int)
    ensures
        md(md(md(md(md(md(t) + md(md(s1) + md(s1))) + md(md(s2) + md(s2))) + md(s3)) + md(s4)) - md(md(md(md(d1) + md(d2)) + md(d3)) + md(d4)))
            == md(t + 2 * s1 + 2 * s2 + s3 + s4 - (d1 + d2 + d3 + d4))
{
    lemma_md2(s1, s1); lemma_md2(s2, s2);
    lemma_md2(t, s1 + s1); lemma_md2(t + (s1 + s1), s2 + s2); lemma_md2(t + (s1 + s1) + (s2 + s2), s3); lemma_md2(t + (s1 + s1) + (s2 + s2) + s3, s4);
    lemma_md2(d1, d2); lemma_md2(d1 + d2, d3); lemma_md2(d1 + d2 + d3, d4);
    lemma_md2(t + (s1 + s1) + (s2 + s2) + s3 + s4, d1 + d2 + d3 + d4);
}
#[verifier::opaque]
spec fn is_term(t: int, x: int) -> bool { t == md(x) }
proof fn lemma_nist_all(x: int, v: Seq<Wrapping<u32>>, t: int, s1: int, s2: int, s3: int, s4: int, d1: int, d2: int, d3: int, d4: int)
    requires
        limbs(v, 16) == x,
        is_term(t, lin8(v[0].0 as int, v[1].0 as int, v[2].0 as int, v[3].0 as int, v[4].0 as int, v[5].0 as int, v[6].0 as int, v[7].0 as int)),
        is_term(s1, lin8(0, 0, 0, v[11].0 as int, v[12].0 as int, v[13].0 as int, v[14].0 as int, v[15].0 as int)),
        is_term(s2, lin8(0, 0, 0, v[12].0 as int, v[13].0 as int, v[14].0 as int, v[15].0 as int, 0)),
        is_term(s3, lin8(v[8].0 as int, v[9].0 as int, v[10].0 as int, 0, 0, 0, v[14].0 as int, v[15].0 as int)),
        is_term(s4, lin8(v[9].0 as int, v[10].0 as int, v[11].0 as int, v[13].0 as int, v[14].0 as int, v[15].0 as int, v[13].0 as int, v[8].0 as int)),
        is_term(d1, lin8(v[11].0 as int, v[12].0 as int, v[13].0 as int, 0, 0, 0, v[8].0 as int, v[10].0 as int)),
        is_term(d2, lin8(v[12].0 as int, v[13].0 as int, v[14].0 as int, v[15].0 as int, 0, 0, v[9].0 as int, v[11].0 as int)),
        is_term(d3, lin8(v[13].0 as int, v[14].0 as int, v[15].0 as int, v[8].0 as int, v[9].0 as int, v[10].0 as int, 0, v[12].0 as int)),
        is_term(d4, lin8(v[14].0 as int, v[15].0 as int, 0, v[9].0 as int, v[10].0 as int, v[11].0 as int, 0, v[13].0 as int)),
    ensures md(md(md(md(md(t + md(s1 + s1)) + md(s2 + s2)) + s3) + s4) - md(md(md(d1 + d2) + d3) + d4)) == md(x)
{
    reveal(is_term);
    lemma_lin16(v);
    reveal(nist_sum);
    lemma_nist(v[0].0 as int, v[1].0 as int, v[2].0 as int, v[3].0 as int, v[4].0 as int, v[5].0 as int, v[6].0 as int, v[7].0 as int, v[8].0 as int, v[9].0 as int, v[10].0 as int, v[11].0 as int, v[12].0 as int, v[13].0 as int, v[14].0 as int, v[15].0 as int);
    lemma_nist_terms(lin8(v[0].0 as int, v[1].0 as int, v[2].0 as int, v[3].0 as int, v[4].0 as int, v[5].0 as int, v[6].0 as int, v[7].0 as int), lin8(0, 0, 0, v[11].0 as int, v[12].0 as int, v[13].0 as int, v[14].0 as int, v[15].0 as int), lin8(0, 0, 0, v[12].0 as int, v[13].0 as int, v[14].0 as int, v[15].0 as int, 0), lin8(v[8].0 as int, v[9].0 as int, v[10].0 as int, 0, 0, 0, v[14].0 as int, v[15].0 as int), lin8(v[9].0 as int, v[10].0 as int, v[11].0 as int, v[13].0 as int, v[14].0 as int, v[15].0 as int, v[13].0 as int, v[8].0 as int), lin8(v[11].0 as int, v[12].0 as int, v[13].0 as int, 0, 0, 0, v[8].0 as int, v[10].0 as int), lin8(v[12].0 as int, v[13].0 as int, v[14].0 as int, v[15].0 as int, 0, 0, v[9].0 as int, v[11].0 as int), lin8(v[13].0 as int, v[14].0 as int, v[15].0 as int, v[8].0 as int, v[9].0 as int, v[10].0 as int, 0, v[12].0 as int), lin8(v[14].0 as int, v[15].0 as int, 0, v[9].0 as int, v[10].0 as int, v[11].0 as int, 0, v[13].0 as int));
}
proof fn lemma_prod(x: u32, y: u32)
    ensures 0 <= x * y <= 0xffff_fffe_0000_0001
{ assert(0 <= x * y <= 0xffff_fffe_0000_0001) by (nonlinear_arith) requires 0 <= x <= 0xffff_ffff, 0 <= y <= 0xffff_ffff; }
// one digit of the schoolbook product: p = x y, split over the digits at k and k + 1
proof fn lemma_digits(x: u32, y: u32, w: u64, p: u64, z: u64)
    requires w < 0x4_0000_0000, p == x * y, z == w + (p as u32) as u64
    ensures
        (p >> 32) + (z >> 32) <= 0xffff_fffe + 5,
        ((z as u32) as u64) + 0x1_0000_0000 * ((p >> 32) + (z >> 32)) == w + x * y,
{
    lemma_prod(x, y);
    assert((p as u32) as u64 + 0x1_0000_0000 * (p >> 32) == p && p >> 32 <= 0xffff_ffff) by (bit_vector);
    assert(p <= 0xffff_fffe_0000_0001 ==> p >> 32 <= 0xffff_fffe) by (bit_vector);
    assert((z as u32) as u64 + 0x1_0000_0000 * (z >> 32) == z && (z < 0x5_0000_0000 ==> z >> 32 < 5)) by (bit_vector);
}
proof fn lemma_limbs_step(s: Seq<Wrapping<u32>>, n: nat)
    ensures limbs(s, 0) == 0, limbs(s, n + 1) == limbs(s, n) + s[n as int].0 * pw(n)
{ }
proof fn lemma_wl_step(s: Seq<Wrapping<u64>>, n: nat)
    ensures wl(s, 0) == 0, wl(s, n + 1) == wl(s, n) + s[n as int].0 * pw(n)
{ }
// one step of the carry chain
proof fn lemma_chain(w: Seq<Wrapping<u64>>, v0: Seq<Wrapping<u32>>, v: Seq<Wrapping<u32>>, n: nat, c0: u64, a: u64, c: u64)
    requires
        n < 16, limbs(v0, n) + c0 * pw(n) == wl(w, n), c0 <= 4, w[n as int].0 < 0x2_0000_0000, a == w[n as int].0 + c0,
        v == v0.update(n as int, Wrapping(a as u32)), v0.len() == 16, c == a >> 32,
    ensures limbs(v, n + 1) + c * pw(n + 1) == wl(w, n + 1), c <= 4
{
    let (x, z, d, q) = (w[n as int].0 as int, v[n as int].0 as int, c as int, pw(n));
    assert(a == (a as u32) + 0x1_0000_0000 * (a >> 32) && (a <= 0x2_0000_0004 ==> a >> 32 <= 2)) by (bit_vector);
    assert(z * q + (d * 0x1_0000_0000) * q == x * q + c0 * q) by (nonlinear_arith) requires z + 0x1_0000_0000 * d == x + c0;
    assert((d * 0x1_0000_0000) * q == d * (0x1_0000_0000 * q)) by (nonlinear_arith);
    assert(pw(n + 1) == 0x1_0000_0000 * q);
    lemma_limbs_eq(v0, v, n);
    lemma_limbs_step(v, n); lemma_wl_step(w, n);
}
proof fn lemma_row(x: int, q: int, base: int, f: int, y: int, r: int, t0: int, t: int)
    requires t0 == base + (x * q) * f, t == t0 + (x * q) * (y * r)
    ensures t == base + (x * q) * (f + y * r)
{ assert((x * q) * (f + y * r) == (x * q) * f + (x * q) * (y * r)) by (nonlinear_arith); }
proof fn lemma_no_carry(x: int, y: int, q: int, l: int, c: int)
    requires 0 <= x < q, 0 <= y < q, l + c * (q * q) == x * y, l >= 0, c >= 0
    ensures c == 0
{
    assert(x * y < q * q) by (nonlinear_arith) requires 0 <= x < q, 0 <= y < q;
    let qq = q * q;
    assert(c == 0) by (nonlinear_arith) requires l + c * qq == x * y, x * y < qq, l >= 0, c >= 0, qq > 0;
}
//@fn Int256::mult
    requires self.ok(), b.ok()
    ensures r.val() == md(self.val() * b.val()), r.ok(),
//@hint start
    hide(pw); hide(limbs); hide(wl);
    proof { lemma_pw(); lemma_bound(*self); lemma_bound(*b); lemma_limbs_step(self.v@, 0); lemma_limbs_step(b.v@, 0); }
//@hint before /for i in/ #0
    proof { lemma_wl_zero(w@, 16); assert(0 * b.val() == 0); }
//@loop 0 it
        invariant
            it.index@ <= 8, wl(w@, 16) == limbs(self.v@, it.index@ as nat) * b.val(),
            forall|k: int| 0 <= k < 16 ==> (#[trigger] w@[k]).0 < 0x2_0000_0000, forall|k: int| it.index@ + 8 <= k < 16 ==> (#[trigger] w@[k]).0 == 0,
//@hint loop 0 start
    let ghost x = self.v@[i as int].0;
    let ghost base = limbs(self.v@, i as nat) * b.val();
    proof { assert((x * pw(i as nat)) * 0 == 0); lemma_limbs_step(b.v@, 0); }
//@loop 1 jt
        invariant
            jt.index@ <= 8, i < 8, x == self.v@[i as int].0, base == limbs(self.v@, i as nat) * b.val(),
            wl(w@, 16) == base + (x * pw(i as nat)) * limbs(b.v@, jt.index@ as nat),
            forall|k: int| 0 <= k < 16 && (k != i + jt.index@ || jt.index@ == 8) ==> (#[trigger] w@[k]).0 < 0x2_0000_0000, w@[i + jt.index@].0 < 0x4_0000_0000,
            forall|k: int| i + 8 + (if jt.index@ == 8 { 1int } else { 0int }) <= k < 16 ==> (#[trigger] w@[k]).0 == 0,
//@hint loop 1 start
    let ghost w0 = w@;
//@hint loop 1 end
    proof {
        let (y, lo, hi) = (b.v@[j as int].0, w_ij_low.0, w_ij_high.0);
        lemma_prod(x, y);
        lemma_digits(x, y, w0[(i + j) as int].0, v_ij.0, w_ij.0);
        assert(w@ =~= w0.update((i + j) as int, Wrapping(lo)).update((i + j + 1) as int, Wrapping((w0[(i + j + 1) as int].0 + hi) as u64)));
        lemma_school(w0, w@, i as nat, j as nat, x, y, lo, hi);
        lemma_limbs_step(b.v@, j as nat);
        lemma_row(x as int, pw(i as nat), base, limbs(b.v@, j as nat), y as int, pw(j as nat), wl(w0, 16), wl(w@, 16));
    }
//@hint loop 0 end
    proof {
        lemma_limbs_step(self.v@, i as nat);
        let (e, f, g) = (limbs(self.v@, i as nat), x * pw(i as nat), b.val());
        assert((e + f) * g == e * g + f * g) by (nonlinear_arith);
    }
//@hint before /for i in/ #1
    proof { lemma_limbs_step(v@, 0); lemma_wl_step(w@, 0); assert(0 * pw(0) == 0); }
//@loop 2 ct
        invariant
            ct.index@ <= 16, carry.0 <= 4, limbs(v@, ct.index@ as nat) + carry.0 * pw(ct.index@ as nat) == wl(w@, ct.index@ as nat), wl(w@, 16) == self.val() * b.val(),
            forall|k: int| 0 <= k < 16 ==> (#[trigger] w@[k]).0 < 0x2_0000_0000,
//@hint loop 2 start
    let ghost (c0, v0) = (carry.0, v@);
//@hint loop 2 end
    proof { lemma_chain(w@, v0, v@, ct.index@ as nat, c0, a.0, carry.0); }
//@hint loop 2 after
    proof {
        lemma_limbs_bound(v@, 16);
        lemma_pw_add(8, 8);
        lemma_no_carry(self.val(), b.val(), pw(8), limbs(v@, 16), carry.0 as int);
    }
//@hint after /let t =/
    proof { assert(is_term(t.val(), lin8(v@[0].0 as int, v@[1].0 as int, v@[2].0 as int, v@[3].0 as int, v@[4].0 as int, v@[5].0 as int, v@[6].0 as int, v@[7].0 as int))) by { assert(buf.v@ =~= seq![v@[0], v@[1], v@[2], v@[3], v@[4], v@[5], v@[6], v@[7]]); lemma_lin(buf.v@); reveal(is_term); } }
//@hint after /let s1 =/
    proof { assert(is_term(s1.val(), lin8(0, 0, 0, v@[11].0 as int, v@[12].0 as int, v@[13].0 as int, v@[14].0 as int, v@[15].0 as int))) by { assert(buf.v@ =~= seq![W(0), W(0), W(0), v@[11], v@[12], v@[13], v@[14], v@[15]]); lemma_lin(buf.v@); reveal(is_term); } }
//@hint after /let s2 =/
    proof { assert(is_term(s2.val(), lin8(0, 0, 0, v@[12].0 as int, v@[13].0 as int, v@[14].0 as int, v@[15].0 as int, 0))) by { assert(buf.v@ =~= seq![W(0), W(0), W(0), v@[12], v@[13], v@[14], v@[15], W(0)]); lemma_lin(buf.v@); reveal(is_term); } }
//@hint after /let s3 =/
    proof { assert(is_term(s3.val(), lin8(v@[8].0 as int, v@[9].0 as int, v@[10].0 as int, 0, 0, 0, v@[14].0 as int, v@[15].0 as int))) by { assert(buf.v@ =~= seq![v@[8], v@[9], v@[10], W(0), W(0), W(0), v@[14], v@[15]]); lemma_lin(buf.v@); reveal(is_term); } }
//@hint after /let s4 =/
    proof { assert(is_term(s4.val(), lin8(v@[9].0 as int, v@[10].0 as int, v@[11].0 as int, v@[13].0 as int, v@[14].0 as int, v@[15].0 as int, v@[13].0 as int, v@[8].0 as int))) by { assert(buf.v@ =~= seq![v@[9], v@[10], v@[11], v@[13], v@[14], v@[15], v@[13], v@[8]]); lemma_lin(buf.v@); reveal(is_term); } }
//@hint after /let d1 =/
    proof { assert(is_term(d1.val(), lin8(v@[11].0 as int, v@[12].0 as int, v@[13].0 as int, 0, 0, 0, v@[8].0 as int, v@[10].0 as int))) by { assert(buf.v@ =~= seq![v@[11], v@[12], v@[13], W(0), W(0), W(0), v@[8], v@[10]]); lemma_lin(buf.v@); reveal(is_term); } }
//@hint after /let d2 =/
    proof { assert(is_term(d2.val(), lin8(v@[12].0 as int, v@[13].0 as int, v@[14].0 as int, v@[15].0 as int, 0, 0, v@[9].0 as int, v@[11].0 as int))) by { assert(buf.v@ =~= seq![v@[12], v@[13], v@[14], v@[15], W(0), W(0), v@[9], v@[11]]); lemma_lin(buf.v@); reveal(is_term); } }
//@hint after /let d3 =/
    proof { assert(is_term(d3.val(), lin8(v@[13].0 as int, v@[14].0 as int, v@[15].0 as int, v@[8].0 as int, v@[9].0 as int, v@[10].0 as int, 0, v@[12].0 as int))) by { assert(buf.v@ =~= seq![v@[13], v@[14], v@[15], v@[8], v@[9], v@[10], W(0), v@[12]]); lemma_lin(buf.v@); reveal(is_term); } }
//@hint after /let d4 =/
    proof { assert(is_term(d4.val(), lin8(v@[14].0 as int, v@[15].0 as int, 0, v@[9].0 as int, v@[10].0 as int, v@[11].0 as int, 0, v@[13].0 as int))) by { assert(buf.v@ =~= seq![v@[14], v@[15], W(0), v@[9], v@[10], v@[11], W(0), v@[13]]); lemma_lin(buf.v@); reveal(is_term); } }
//@hint ret
    proof { lemma_nist_all(self.val() * b.val(), v@, t.val(), s1.val(), s2.val(), s3.val(), s4.val(), d1.val(), d2.val(), d3.val(), d4.val()); }
//@loop 3 dt
        invariant dt.index@ <= 3, forall|k: int| 0 <= k < dt.index@ ==> #[trigger] buf.v@[k] == v@[k + 13], forall|k: int| 3 <= k < 3 + dt.index@ ==> #[trigger] buf.v@[k] == v@[k + 5], forall|k: int| 6 <= k < 8 ==> #[trigger] buf.v@[k] == W(0u32),
//@fn Int256::square
    requires self.ok()
    ensures r.val() == md(self.val() * self.val()), r.ok(),
//@spec
// ---- powers
pub open spec fn pow(x: int, n: nat) -> int
    decreases n
{ if n == 0 { 1 } else { x * pow(x, (n - 1) as nat) } }
pub proof fn lemma_pow_add(x: int, m: nat, n: nat)
    ensures pow(x, m + n) == pow(x, m) * pow(x, n)
    decreases m
{
    if m == 0 { assert(1 * pow(x, n) == pow(x, n)); } else {
        lemma_pow_add(x, (m - 1) as nat, n);
        let (a, b) = (pow(x, (m - 1) as nat), pow(x, n));
        assert(x * (a * b) == (x * a) * b) by (nonlinear_arith);
    }
}
pub open spec fn two(n: nat) -> nat
    decreases n
{ if n == 0 { 1 } else { 2 * two((n - 1) as nat) } }
pub proof fn lemma_two_add(m: nat, n: nat)
    ensures two(m + n) == two(m) * two(n)
    decreases m
{
    if m == 0 { assert(1 * two(n) == two(n)); } else {
        lemma_two_add((m - 1) as nat, n);
        let (a, b) = (two((m - 1) as nat), two(n));
        assert(2 * (a * b) == (2 * a) * b) by (nonlinear_arith);
    }
}
// y is x to the n
#[verifier::opaque]
pub open spec fn is_pow(y: int, x: int, n: nat) -> bool { y == md(pow(x, n)) }
proof fn lemma_is_pow_mul(y: int, z: int, x: int, m: nat, n: nat)
    requires is_pow(y, x, m), is_pow(z, x, n)
    ensures is_pow(md(y * z), x, m + n)
{
    reveal(is_pow);
    lemma_pow_add(x, m, n);
    lemma_md2(pow(x, m), pow(x, n));
}
proof fn lemma_is_pow_one(x: int)
    ensures 0 <= x < p256() ==> is_pow(x, x, 1)
{
    reveal(is_pow);
    lemma_md(x);
    reveal_with_fuel(pow, 2);
    assert(x * 1 == x);
}
//@fn inverse__square_n
    requires a.ok()
    ensures r.ok(), forall|x: int, m: nat| #[trigger] is_pow(a.val(), x, m) ==> is_pow(r.val(), x, m * two(n as nat)),
//@loop 0 it
    invariant it.index@ <= n, y.ok(), forall|x: int, m: nat| #[trigger] is_pow(a.val(), x, m) ==> is_pow(y.val(), x, m * two(it.index@ as nat)),
//@hint before /for _ in/
    proof { assert forall|x: int, m: nat| #[trigger] is_pow(a.val(), x, m) implies is_pow(y.val(), x, m * two(0)) by { assert(m * two(0) == m) by (nonlinear_arith) requires two(0) == 1; } }
//@hint loop 0 start
    let ghost y0 = y.val();
//@hint loop 0 end
    proof {
        let t = two(it.index@ as nat);
        assert forall|x: int, m: nat| #[trigger] is_pow(a.val(), x, m) implies is_pow(y.val(), x, m * two((it.index@ + 1) as nat)) by {
            lemma_is_pow_mul(y0, y0, x, m * t, m * t);
            assert(m * t + m * t == m * (2 * t)) by (nonlinear_arith);
        }
    }
//@fn inverse__z_n
    requires z.ok()
    ensures r.ok(), forall|x: int, m: nat| #[trigger] is_pow(z.val(), x, m) ==> is_pow(r.val(), x, m * two(n as nat) + m),
//@hint after /let y =/
    proof { assert forall|x: int, m: nat| #[trigger] is_pow(z.val(), x, m) implies is_pow(md(y.val() * z.val()), x, m * two(n as nat) + m) by { lemma_is_pow_mul(y.val(), z.val(), x, m * two(n as nat), m); } }
//@fn inverse__z_1
    requires z.ok(), a.ok()
    ensures r.ok(), forall|m: nat| #[trigger] is_pow(z.val(), a.val(), m) ==> is_pow(r.val(), a.val(), m + m + 1),
//@hint start
    proof {
        lemma_bound(*a);
        lemma_is_pow_one(a.val());
        assert forall|m: nat| #[trigger] is_pow(z.val(), a.val(), m) implies is_pow(md(md(z.val() * z.val()) * a.val()), a.val(), m + m + 1) by {
            lemma_is_pow_mul(z.val(), z.val(), a.val(), m, m);
            lemma_is_pow_mul(md(z.val() * z.val()), a.val(), a.val(), m + m, 1);
        }
    }
//@spec
// the inverse modulo the prime, 0 for 0
#[verifier::opaque]
pub open spec fn inv(x: int) -> int { md(pow(x, (p256() - 2) as nat)) }
proof fn lemma_two_small()
    ensures two(1) == 2, two(2) == 4, two(4) == 16, two(8) == 256, two(16) == 0x1_0000, two(5) == 32, two(11) == 2048, two(23) == 0x80_0000
{ assert(two(1) == 2 && two(2) == 4 && two(4) == 16 && two(8) == 256 && two(16) == 0x1_0000 && two(5) == 32 && two(11) == 2048 && two(23) == 0x80_0000) by (compute); }
proof fn lemma_two_pw(n: nat)
    ensures two(32 * n) == pw(n)
    decreases n
{
    if n > 0 {
        lemma_two_pw((n - 1) as nat);
        lemma_two_add(32, (32 * (n - 1)) as nat);
        assert(two(32) == 0x1_0000_0000) by (compute);
        assert((32 + 32 * (n - 1)) as nat == 32 * n);
    }
}
proof fn lemma_two_big()
    ensures
        two(47) == 0x8000_0000_0000, two(96) == pw(3), two(224) == pw(7),
        0xffff_ffff * pw(7) == pw(8) - pw(7), (pw(3) - 1) * pw(3) + (pw(3) - 1) == pw(6) - 1, pw(3) == 0x1_0000_0000_0000_0000_0000_0000int,
        p256() - 2 == (pw(8) - pw(7)) + (pw(6) - 1) + (pw(3) - 2)
{
    reveal(p256);
    assert(two(47) == 0x8000_0000_0000) by (compute);
    lemma_two_pw(3); lemma_two_pw(7); lemma_pw();
    lemma_pw_add(3, 3);
    let (a, b) = (pw(3), pw(6));
    assert((a - 1) * a + (a - 1) == b - 1) by (nonlinear_arith) requires b == a * a;
}
//@fn Int256::inverse
    requires self.ok()
    ensures r.val() == inv(self.val()), r.ok(),
//@hint start
    let ghost x = self.val();
    proof { lemma_bound(*self); lemma_is_pow_one(x); lemma_two_small(); lemma_two_big(); }
//@hint after /let z2 =/
    proof { assert(1nat * two(1) + 1nat == 3nat); assert(is_pow(z2.val(), x, 3nat)); }
//@hint after /let z4 =/
    proof { assert(3nat * two(2) + 3nat == 15nat); assert(is_pow(z4.val(), x, 15nat)); }
//@hint after /let z8 =/
    proof { assert(15nat * two(4) + 15nat == 255nat); assert(is_pow(z8.val(), x, 255nat)); }
//@hint after /let z16 =/
    proof { assert(255nat * two(8) + 255nat == 65535nat); assert(is_pow(z16.val(), x, 65535nat)); }
//@hint after /let z32 =/
    proof { assert(65535nat * two(16) + 65535nat == 4294967295nat); assert(is_pow(z32.val(), x, 4294967295nat)); }
//@hint after /let z5 =/
    proof {  assert(is_pow(z5.val(), x, 31nat)); }
//@hint after /let z10 =/
    proof { assert(31nat * two(5) + 31nat == 1023nat); assert(is_pow(z10.val(), x, 1023nat)); }
//@hint after /let z11 =/
    proof {  assert(is_pow(z11.val(), x, 2047nat)); }
//@hint after /let z22 =/
    proof { assert(2047nat * two(11) + 2047nat == 4194303nat); assert(is_pow(z22.val(), x, 4194303nat)); }
//@hint after /let z23 =/
    proof {  assert(is_pow(z23.val(), x, 8388607nat)); }
//@hint after /let z46 =/
    proof { assert(8388607nat * two(23) + 8388607nat == 70368744177663nat); assert(is_pow(z46.val(), x, 70368744177663nat)); }
//@hint after /let z47 =/
    proof {  assert(is_pow(z47.val(), x, 140737488355327nat)); }
//@hint after /let z94 =/
    proof { assert(140737488355327nat * two(47) + 140737488355327nat == 19807040628566084398385987583nat); assert(is_pow(z94.val(), x, 19807040628566084398385987583nat)); }
//@hint after /let z95 =/
    proof {  assert(is_pow(z95.val(), x, 39614081257132168796771975167nat)); }
//@hint after /let y96_2 =/
    proof { lemma_is_pow_mul(z95.val(), z95.val(), x, 39614081257132168796771975167nat, 39614081257132168796771975167nat); assert(is_pow(y96_2.val(), x, 79228162514264337593543950334nat)); }
//@hint after /let z96 =/
    proof { lemma_is_pow_mul(y96_2.val(), x, x, 79228162514264337593543950334nat, 1); assert(is_pow(z96.val(), x, (pw(3) - 1) as nat)); }
//@hint after /let z192 =/
    proof { assert(is_pow(z192.val(), x, (pw(6) - 1) as nat)); }
//@hint after /let y256_224 =/
    proof {
        assert(is_pow(y256_224.val(), x, (pw(8) - pw(7)) as nat));
        lemma_is_pow_mul(y256_224.val(), z192.val(), x, (pw(8) - pw(7)) as nat, (pw(6) - 1) as nat);
        lemma_is_pow_mul(md(y256_224.val() * z192.val()), y96_2.val(), x, (pw(8) - pw(7) + pw(6) - 1) as nat, 79228162514264337593543950334nat);
        assert(is_pow(md(md(y256_224.val() * z192.val()) * y96_2.val()), x, (p256() - 2) as nat));
        reveal(is_pow); reveal(inv);
    }
//@spec
// shifting right by one bit, c shifted in at the top
proof fn lemma_half(s: Seq<Wrapping<u32>>, h: Seq<Wrapping<u32>>, c: u32)
    requires
        c <= 1, s.len() == 8, h.len() == 8,
        forall|k: int| 0 <= k < 7 ==> (#[trigger] h[k]).0 == (s[k].0 >> 1) | ((s[k + 1].0 & 1) << 31),
        h[7].0 == (s[7].0 >> 1) | (c << 31),
    ensures 2 * limbs(h, 8) + (s[0].0 & 1) == limbs(s, 8) + (if c == 0 { 0 } else { pw(8) })
{
    lemma_pw();
    lemma_lin(s); lemma_lin(h);
    assert(forall|x: u32, y: u32| 2 * (#[trigger] ((x >> 1) | ((y & 1) << 31))) == x - (x & 1) + 0x1_0000_0000 * (y & 1)) by (bit_vector);
    assert(forall|x: u32, y: u32| y <= 1 ==> 2 * (#[trigger] ((x >> 1) | (y << 31))) == x - (x & 1) + 0x1_0000_0000 * y) by (bit_vector);
    assert(forall|x: u32| #[trigger] (x & 1) <= 1 && (x & 1) <= x) by (bit_vector);
    assert(h[0].0 * 2 == s[0].0 - (s[0].0 & 1) + 0x1_0000_0000 * (s[1].0 & 1));
    assert(h[1].0 * 2 == s[1].0 - (s[1].0 & 1) + 0x1_0000_0000 * (s[2].0 & 1));
    assert(h[2].0 * 2 == s[2].0 - (s[2].0 & 1) + 0x1_0000_0000 * (s[3].0 & 1));
    assert(h[3].0 * 2 == s[3].0 - (s[3].0 & 1) + 0x1_0000_0000 * (s[4].0 & 1));
    assert(h[4].0 * 2 == s[4].0 - (s[4].0 & 1) + 0x1_0000_0000 * (s[5].0 & 1));
    assert(h[5].0 * 2 == s[5].0 - (s[5].0 & 1) + 0x1_0000_0000 * (s[6].0 & 1));
    assert(h[6].0 * 2 == s[6].0 - (s[6].0 & 1) + 0x1_0000_0000 * (s[7].0 & 1));
    assert(h[7].0 * 2 == s[7].0 - (s[7].0 & 1) + 0x1_0000_0000 * c);
    assert(c == 0 || c == 1);
    reveal(lin8);
    let t = lin8(0, 0, 0, 0, 0, 0, 0, 0x1_0000_0000);
    assert(pw(8) == t);
}
proof fn lemma_p_odd()
    ensures exists|k: int| p256() == #[trigger] (2 * k) + 1
{
    reveal(p256);
    lemma_pw();
    let k = 0x8000_0000 * pw(7) - 0x8000_0000 * pw(6) + 0x8000_0000 * pw(5) + 0x8000_0000 * pw(2) - 1;
    assert(pw(3) == 0x1_0000_0000 * pw(2)) by { reveal_with_fuel(pw, 4); }
    assert(p256() == 2 * k + 1);
}
//@fn Int256::divide_by_2
    requires self.ok()
    ensures r.ok(), 2 * r.val() == self.val() || 2 * r.val() == self.val() + p256(), md(2 * r.val()) == self.val(),
//@hint start
    proof {
        lemma_bound(*self); lemma_p_odd(); lemma_md(self.val()); lemma_md_add(self.val(), 1); lemma_pw();
        let w = self.v@[0].0;
        assert(w & 1 <= 1) by (bit_vector);
    }
//@loop 0 it
    invariant it.index@ <= 7, forall|k: int| 0 <= k < it.index@ ==> (#[trigger] half_even.v@[k]).0 == (self.v@[k].0 >> 1) | ((self.v@[k + 1].0 & 1) << 31),
//@loop 1 jt
    invariant jt.index@ <= 7, forall|k: int| 0 <= k < jt.index@ ==> (#[trigger] half_odd.v@[k]).0 == (self_p.v@[k].0 >> 1) | ((self_p.v@[k + 1].0 & 1) << 31),
//@hint loop 0 after
    proof {
        let w = self.v@[7].0;
        assert((w >> 1) | (0u32 << 31) == w >> 1) by (bit_vector);
    }
//@hint ret
    proof {
        lemma_half(self.v@, half_even.v@, 0);
        lemma_half(self_p.v@, half_odd.v@, carry.0);
        let w = self_p.v@[0].0;
        assert(w & 1 <= 1) by (bit_vector);
    }
//@spec
// ---- big-endian bytes: the number written in the n bytes from k on
// n words of 4 bytes from position k on, least significant first throughout
pub open spec fn le_num(s: Seq<u8>, k: int, n: nat) -> int
    decreases n
{ if n == 0 { 0 } else { le_num(s, k, (n - 1) as nat) + (le32(s, k + 4 * (n - 1)) as int) * pw((n - 1) as nat) } }
pub proof fn lemma_le_num(s: Seq<u8>, k: int, v: Seq<Wrapping<u32>>, n: nat)
    requires v.len() >= n, forall|i: int| 0 <= i < n ==> (#[trigger] v[i]).0 == le32(s, k + 4 * i)
    ensures le_num(s, k, n) == limbs(v, n)
    decreases n
{ if n > 0 { lemma_le_num(s, k, v, (n - 1) as nat); assert(v[n - 1].0 == le32(s, k + 4 * (n - 1))); } }
// the first bytes of t are s
pub open spec fn grown(s: Seq<u8>, t: Seq<u8>) -> bool { s.len() <= t.len() && t.subrange(0, s.len() as int) == s }
pub proof fn lemma_grown_at(s: Seq<u8>, t: Seq<u8>)
    requires grown(s, t)
    ensures forall|i: int| 0 <= i < s.len() ==> t[i] == #[trigger] s[i], forall|k: int| 0 <= k && k + 4 <= s.len() ==> le32(t, k) == #[trigger] le32(s, k)
{
    assert forall|i: int| 0 <= i < s.len() implies t[i] == #[trigger] s[i] by { assert(t.subrange(0, s.len() as int)[i] == t[i]); }
}
pub proof fn lemma_grown_trans(s: Seq<u8>, t: Seq<u8>, u: Seq<u8>)
    requires grown(s, t), grown(t, u)
    ensures grown(s, u)
{
    lemma_grown_at(s, t); lemma_grown_at(t, u);
    assert(u.subrange(0, s.len() as int) =~= s);
}
pub proof fn lemma_le_num_same(s: Seq<u8>, t: Seq<u8>, k: int, n: nat)
    requires grown(s, t), 0 <= k, k + 4 * n <= s.len()
    ensures le_num(t, k, n) == le_num(s, k, n)
    decreases n
{ lemma_grown_at(s, t); if n > 0 { lemma_le_num_same(s, t, k, (n - 1) as nat); } }
pub open spec fn be(s: Seq<u8>, k: int, n: nat) -> int
    decreases n
{ if n == 0 { 0 } else { 0x100 * be(s, k, (n - 1) as nat) + s[k + n - 1] } }
pub open spec fn be_word(s: Seq<u8>, k: int) -> u32 { (s[k] as u32) << 24 | (s[k + 1] as u32) << 16 | (s[k + 2] as u32) << 8 | (s[k + 3] as u32) }
pub open spec fn wd(s: Seq<u8>, o: int, k: int) -> u32 { be_word(s, o + 4 * k) }
pub open spec fn be_word_int(s: Seq<u8>, k: int) -> int { 0x100 * (0x100 * (0x100 * s[k] + s[k + 1]) + s[k + 2]) + s[k + 3] }
proof fn lemma_be_word(s: Seq<u8>, k: int)
    ensures be_word(s, k) == be_word_int(s, k)
{
    let (a, b, c, d) = (s[k], s[k + 1], s[k + 2], s[k + 3]);
    assert((a as u32) << 24 | (b as u32) << 16 | (c as u32) << 8 | (d as u32) == 0x100 * (0x100 * (0x100 * a + b) + c) + d) by (bit_vector);
}
proof fn lemma_be_step(s: Seq<u8>, o: int, n: nat)
    ensures be(s, o, (n + 4) as nat) == 0x1_0000_0000 * be(s, o, n) + be_word_int(s, o + n)
{
    assert(be(s, o, (n + 1) as nat) == 0x100 * be(s, o, n) + s[o + n]);
    assert(be(s, o, (n + 2) as nat) == 0x100 * be(s, o, (n + 1) as nat) + s[o + n + 1]);
    assert(be(s, o, (n + 3) as nat) == 0x100 * be(s, o, (n + 2) as nat) + s[o + n + 2]);
    assert(be(s, o, (n + 4) as nat) == 0x100 * be(s, o, (n + 3) as nat) + s[o + n + 3]);
}
proof fn lemma_be(s: Seq<u8>, v: Seq<Wrapping<u32>>, o: int)
    requires forall|k: int| 0 <= k < 8 ==> #[trigger] wd(s, o, k) == v[7 - k].0
    ensures be(s, o, 32) == limbs(v, 8)
{
    lemma_lin(v);
    assert forall|k: int| 0 <= k < 8 implies be_word_int(s, o + 4 * k) == #[trigger] wd(s, o, k) by { lemma_be_word(s, o + 4 * k); }
    assert(be(s, o, 0) == 0);
    lemma_be_step(s, o, 0); lemma_be_step(s, o, 4); lemma_be_step(s, o, 8); lemma_be_step(s, o, 12); lemma_be_step(s, o, 16); lemma_be_step(s, o, 20); lemma_be_step(s, o, 24); lemma_be_step(s, o, 28);
    assert(wd(s, o, 0) == v[7].0 && wd(s, o, 1) == v[6].0 && wd(s, o, 2) == v[5].0 && wd(s, o, 3) == v[4].0 && wd(s, o, 4) == v[3].0 && wd(s, o, 5) == v[2].0 && wd(s, o, 6) == v[1].0 && wd(s, o, 7) == v[0].0);
    assert(be_word_int(s, o + 4 * 0) == v[7].0 && be_word_int(s, o + 4 * 1) == v[6].0 && be_word_int(s, o + 4 * 2) == v[5].0 && be_word_int(s, o + 4 * 3) == v[4].0 && be_word_int(s, o + 4 * 4) == v[3].0 && be_word_int(s, o + 4 * 5) == v[2].0 && be_word_int(s, o + 4 * 6) == v[1].0 && be_word_int(s, o + 4 * 7) == v[0].0);
    reveal(lin8);
}
pub proof fn lemma_be_bound(s: Seq<u8>, o: int, n: nat)
    ensures be(s, o, n) >= 0
    decreases n
{ if n > 0 { lemma_be_bound(s, o, (n - 1) as nat); } }
pub proof fn lemma_be_eq(s: Seq<u8>, o: int, t: Seq<u8>, q: int, n: nat)
    requires forall|k: int| 0 <= k < n ==> s[o + k] == #[trigger] t[q + k]
    ensures be(s, o, n) == be(t, q, n)
    decreases n
{ if n > 0 { lemma_be_eq(s, o, t, q, (n - 1) as nat); assert(s[o + (n - 1)] == t[q + (n - 1)]); } }
// the bytes of a word
pub open spec fn byte_of(x: u32, j: int) -> u8 { if j == 0 { (x >> 24) as u8 } else if j == 1 { (x >> 16) as u8 } else if j == 2 { (x >> 8) as u8 } else { x as u8 } }
//@fn Int256::to_bytes
    ensures r@.len() == 32, be(r@, 0, 32) == self.val(),
//@loop 0 it
    invariant it.index@ <= 8, forall|k: int| 0 <= k < it.index@ ==> #[trigger] wd(b@, 0, k) == self.v@[7 - k].0,
//@hint loop 0 start
    let ghost b0 = b@;
//@loop 1 jt
    invariant jt.index@ <= 4, i < 8, forall|m: int| 0 <= m < 4 * i ==> #[trigger] b@[m] == b0[m], forall|m: int| 0 <= m < jt.index@ ==> #[trigger] b@[4 * i + m] == byte_of(vi.0, m),
//@hint loop 1 end
    proof {
        let x = vi.0;
        assert(j == 0 ==> ((3 - j) * 8) as usize == 24usize && ((3 - j) * 8) as usize % 32 == 24);
        assert(((x >> 24u32) as u64) as u8 == (x >> 24) as u8 && ((x >> 16u32) as u64) as u8 == (x >> 16) as u8 && ((x >> 8u32) as u64) as u8 == (x >> 8) as u8 && ((x >> 0u32) as u64) as u8 == x as u8) by (bit_vector);
        assert(b@[4 * i + j] == byte_of(x, j as int));
    }
//@hint loop 0 end
    proof {
        let x = vi.0;
        assert((((x >> 24) as u8) as u32) << 24 | (((x >> 16) as u8) as u32) << 16 | (((x >> 8) as u8) as u32) << 8 | ((x as u8) as u32) == x) by (bit_vector);
        assert(b@[4 * i + 0] == byte_of(x, 0) && b@[4 * i + 1] == byte_of(x, 1) && b@[4 * i + 2] == byte_of(x, 2) && b@[4 * i + 3] == byte_of(x, 3));
        assert forall|k: int| 0 <= k < i implies #[trigger] wd(b@, 0, k) == wd(b0, 0, k) by { assert(b@[4 * k] == b0[4 * k] && b@[4 * k + 1] == b0[4 * k + 1] && b@[4 * k + 2] == b0[4 * k + 2] && b@[4 * k + 3] == b0[4 * k + 3]); }
    }
//@hint loop 0 after
    proof { lemma_be(b@, self.v@, 0); }
//@fn Int256::from_bytes
    ensures
        r is Some <==> b@.len() == 32 && be(b@, 0, 32) < p256(),
        r is Some ==> (r->0).val() == be(b@, 0, 32) && (r->0).ok(),
//@loop 0 it
    invariant it.index@ <= 8, b@.len() == 32, forall|k: int| 0 <= k < it.index@ ==> wd(b@, 0, k) == (#[trigger] x.v@[7 - k]).0,
//@loop 1 jt
    invariant
        jt.index@ <= 4, i < 8, b@.len() == 32,
        jt.index@ == 0 ==> vi.0 == 0,
        jt.index@ == 1 ==> vi.0 == (b@[4 * i] as u32) << 24,
        jt.index@ == 2 ==> vi.0 == (b@[4 * i] as u32) << 24 | (b@[4 * i + 1] as u32) << 16,
        jt.index@ == 3 ==> vi.0 == (b@[4 * i] as u32) << 24 | (b@[4 * i + 1] as u32) << 16 | (b@[4 * i + 2] as u32) << 8,
        jt.index@ == 4 ==> vi.0 == be_word(b@, 4 * i),
//@hint loop 1 start
    proof {
        let (x, y) = (b@[4 * i + j], vi.0);
        assert(0u32 | ((x as u64) as u32) << 24u32 == (x as u32) << 24) by (bit_vector);
        assert(((x as u64) as u32) << 16u32 == (x as u32) << 16 && ((x as u64) as u32) << 8u32 == (x as u32) << 8 && ((x as u64) as u32) << 0u32 == x as u32) by (bit_vector);
    }
//@hint loop 0 after
    let ghost x0 = x;
    proof {
        assert forall|k: int| 0 <= k < 8 implies #[trigger] wd(b@, 0, k) == x.v@[7 - k].0 by { assert(x.v@[7 - k] == x.v@[7 - k]); }
        lemma_be(b@, x.v@, 0);
        lemma_pw(); lemma_bound(x); lemma_md(x.val());
    }
//@spec
// Fermat's little theorem for the prime 2^256 - 2^224 + 2^192 + 2^96 - 1
#[verifier::external_body]
pub proof fn axiom_fermat(x: int)
    requires 0 < x < p256()
    ensures md(pow(x, (p256() - 1) as nat)) == 1
{ unimplemented!() }
//@module crypto::p256
//@use crate::crypto::p256::int256::*
//@spec
// ---- congruence modulo the prime
pub open spec fn cg(a: int, b: int) -> bool { md(a) == md(b) }
pub proof fn lemma_cg(a: int, b: int, c: int, d: int)
    requires cg(a, b), cg(c, d)
    ensures cg(a * c, b * d), cg(a + c, b + d), cg(a - c, b - d)
{ lemma_md2(a, c); lemma_md2(b, d); }
pub proof fn lemma_cg_md(a: int)
    ensures cg(md(a), a), 0 <= md(a) < p256()
{ lemma_md(a); }
proof fn lemma_md_small(a: int)
    requires 0 <= a < p256()
    ensures md(a) == a
{ lemma_md(a); }
pub proof fn lemma_inv(a: int)
    requires md(a) != 0
    ensures cg(a * inv(md(a)), 1), 0 <= inv(md(a)) < p256()
{
    let x = md(a);
    lemma_md(a); lemma_pw();
    axiom_fermat(x);
    reveal(inv);
    let n = (p256() - 2) as nat;
    lemma_md(pow(x, n));
    assert(pow(x, (p256() - 1) as nat) == x * pow(x, n));
    lemma_md2(a, pow(x, n));
    lemma_md(1);
}
// what is not 0 can be cancelled
pub proof fn lemma_cancel(a: int, b: int, c: int)
    requires cg(a * c, b * c), md(c) != 0
    ensures cg(a, b)
{
    let i = inv(md(c));
    lemma_inv(c);
    lemma_cg(a * c, b * c, i, i);
    lemma_cg(c * i, 1, a, a);
    lemma_cg(c * i, 1, b, b);
    assert(a * c * i == c * i * a && b * c * i == c * i * b) by (nonlinear_arith);
    assert(1 * a == a && 1 * b == b);
}
pub proof fn lemma_nz(a: int, b: int)
    ensures md(a * b) == 0 <==> md(a) == 0 || md(b) == 0
{
    lemma_pw(); lemma_md(0);
    assert(0 * b == 0 && a * 0 == 0 && b * 0 == 0 && 0 * a == 0);
    if md(a) == 0 { lemma_cg(a, 0, b, b); }
    if md(b) == 0 { lemma_cg(a, a, b, 0); }
    if md(a * b) == 0 && md(b) != 0 { lemma_cancel(a, 0, b); }
}
proof fn lemma_inv_0()
    ensures inv(0) == 0
{
    lemma_pw(); reveal(inv); lemma_md(0); reveal(p256);
    let n = (p256() - 3) as nat;
    assert(pow(0, (n + 1) as nat) == 0 * pow(0, n));
}
proof fn lemma_two()
    ensures md(2) == 2, md(3) == 3, md(0) == 0, md(1) == 1
{ lemma_pw(); reveal(p256); lemma_md(2); lemma_md(3); lemma_md(0); lemma_md(1); }

// ---- affine points; None is the point at infinity
pub type Aff = Option<(int, int)>;
pub open spec fn aff(x: int, y: int, z: int) -> Aff {
    if md(z) == 0 { None } else { Some((md(x * inv(md(z * z))), md(y * inv(md(z * md(z * z)))))) }
}
// the group law
pub open spec fn slope_t(x: int, y: int) -> int { md((3 * (x * x) - 3) * inv(md(2 * y))) }
pub open spec fn slope(x: int, y: int, u: int, v: int) -> int { md((y - v) * inv(md(x - u))) }
pub open spec fn on_line(l: int, x: int, y: int, u: int) -> (int, int) { (md(l * l - x - u), md(l * (x - md(l * l - x - u)) - y)) }
pub open spec fn gdbl(p: Aff) -> Aff {
    match p {
        None => None,
        Some((x, y)) => if md(y) == 0 { None } else { Some(on_line(slope_t(x, y), x, y, x)) },
    }
}
pub open spec fn gadd(p: Aff, q: Aff) -> Aff {
    match (p, q) {
        (None, _) => q,
        (_, None) => p,
        (Some((x, y)), Some((u, v))) =>
            if cg(x, u) { if cg(y, v) { gdbl(p) } else { None } } else { Some(on_line(slope(x, y, u, v), x, y, u)) },
    }
}
// n times p
pub open spec fn gmul(n: nat, p: Aff) -> Aff
    decreases n
{ if n == 0 { None } else { let h = gdbl(gmul(n / 2, p)); if n % 2 == 1 { gadd(h, p) } else { h } } }
pub open spec fn canon(p: Aff) -> bool { p matches Some((x, y)) ==> 0 <= x < p256() && 0 <= y < p256() }

// (x, y, z) stands for (u, v)
pub open spec fn rep(x: int, y: int, z: int, u: int, v: int) -> bool { md(z) != 0 && cg(x, u * (z * z)) && cg(y, v * (z * z * z)) }
proof fn lemma_rep(x: int, y: int, z: int)
    requires md(z) != 0
    ensures aff(x, y, z) is Some, rep(x, y, z, (aff(x, y, z)->0).0, (aff(x, y, z)->0).1), canon(aff(x, y, z))
{
    let z2 = z * z;
    let z3 = z * z * z;
    lemma_nz(z, z); lemma_nz(z * z, z);
    lemma_inv(z2); lemma_inv(z3);
    lemma_md2(z, z2);
    assert(z * z2 == z3) by (nonlinear_arith) requires z2 == z * z, z3 == z * z * z;
    let (i, j) = (inv(md(z2)), inv(md(z3)));
    lemma_cg_md(x * i); lemma_cg_md(y * j);
    lemma_cg(md(x * i), x * i, z2, z2); lemma_cg(md(y * j), y * j, z3, z3);
    lemma_cg(z2 * i, 1, x, x); lemma_cg(z3 * j, 1, y, y);
    assert(x * i * z2 == z2 * i * x && y * j * z3 == z3 * j * y) by (nonlinear_arith);
    assert(1 * x == x && 1 * y == y);
}
proof fn lemma_rep_unique(x: int, y: int, z: int, u: int, v: int)
    requires rep(x, y, z, u, v), 0 <= u < p256(), 0 <= v < p256()
    ensures aff(x, y, z) == Some((u, v))
{
    lemma_rep(x, y, z);
    let (a, b) = aff(x, y, z)->0;
    lemma_nz(z, z); lemma_nz(z * z, z);
    lemma_cancel(a, u, z * z);
    lemma_cancel(b, v, z * z * z);
    lemma_md_small(a); lemma_md_small(b); lemma_md_small(u); lemma_md_small(v);
}
// the doubling formula
proof fn lemma_dbl(x: int, y: int, z: int, a: int, b: int, x3: int, y3: int, z3: int)
    requires
        md(z) != 0, cg(a, 3 * ((x - z * z) * (x + z * z))), cg(b, x * (y * y)), cg(x3, a * a - 8 * b), cg(y3, a * (4 * b - x3) - 8 * ((y * y) * (y * y))), cg(z3, 2 * (y * z)),
    ensures aff(x3, y3, z3) == gdbl(aff(x, y, z))
{
    lemma_rep(x, y, z); lemma_two();
    let (u, v) = aff(x, y, z)->0;
    let q = z * z;
    let t = q * z;
    let w = q * q;
    lemma_md_small(v);
    // z3 is 2 v z^4
    lemma_cg(y, v * t, z, z); lemma_cg(2, 2, y * z, (v * t) * z);
    let m = 2 * (v * w);
    assert(2 * ((v * t) * z) == m) by (nonlinear_arith) requires t == q * z, q == z * z, w == q * q, m == 2 * (v * w);
    assert(cg(z3, m));
    lemma_nz(z, z); lemma_nz(q, q); lemma_nz(v, w); lemma_nz(2, v * w);
    if md(v) != 0 {
        lemma_nz(2, v);
        let l = slope_t(u, v);
        let i = inv(md(2 * v));
        let k = 3 * (u * u) - 3;
        lemma_inv(2 * v);
        lemma_cg_md(k * i);
        lemma_cg(l, k * i, 2 * v, 2 * v);
        lemma_cg(2 * v * i, 1, k, k);
        assert(k * i * (2 * v) == 2 * v * i * k) by (nonlinear_arith);
        assert(1 * k == k);
        assert(cg(l * (2 * v), k));
        // a is l z3
        lemma_cg(x, u * q, q, q);
        lemma_cg(x - q, u * q - q, x + q, u * q + q);
        lemma_cg(3, 3, (x - q) * (x + q), (u * q - q) * (u * q + q));
        assert(3 * ((u * q - q) * (u * q + q)) == k * w) by (nonlinear_arith) requires w == q * q, k == 3 * (u * u) - 3;
        lemma_cg(l * (2 * v), k, w, w);
        lemma_cg(l, l, z3, m);
        assert((l * (2 * v)) * w == l * m) by (nonlinear_arith) requires m == 2 * (v * w);
        assert(cg(a, l * m));
        // 4 b is u z3^2
        lemma_cg(y, v * t, y, v * t);
        lemma_cg(x, u * q, y * y, (v * t) * (v * t));
        lemma_cg(4, 4, b, (u * q) * ((v * t) * (v * t)));
        let n = m * m;
        assert(q * (t * t) == w * w) by (nonlinear_arith) requires t == q * z, q == z * z, w == q * q;
        assert(4 * ((u * q) * ((v * t) * (v * t))) == u * n) by (nonlinear_arith) requires n == m * m, m == 2 * (v * w), q * (t * t) == w * w;
        assert(cg(4 * b, u * n));
        lemma_cg(4 * b, u * n, 4 * b, u * n);
        assert(4 * b + 4 * b == 8 * b);
        lemma_cg(a, l * m, a, l * m);
        lemma_cg(a * a, (l * m) * (l * m), 8 * b, u * n + u * n);
        let (xn, yn) = on_line(l, u, v, u);
        let xr = l * l - u - u;
        lemma_cg_md(xr);
        assert((l * m) * (l * m) - (u * n + u * n) == xr * n) by (nonlinear_arith) requires n == m * m, xr == l * l - u - u;
        lemma_cg(xn, xr, n, n);
        assert(cg(x3, xn * n));
        // y3
        let o = n * m;
        lemma_cg(y * y, (v * t) * (v * t), y * y, (v * t) * (v * t));
        lemma_cg(8, 8, (y * y) * (y * y), ((v * t) * (v * t)) * ((v * t) * (v * t)));
        assert((t * t) * (t * t) == w * (w * w)) by (nonlinear_arith) requires t == q * z, q == z * z, w == q * q;
        assert(8 * (((v * t) * (v * t)) * ((v * t) * (v * t))) == v * o) by {
            let c = (v * v) * (v * v);
            assert(((v * t) * (v * t)) * ((v * t) * (v * t)) == c * ((t * t) * (t * t))) by (nonlinear_arith) requires c == (v * v) * (v * v);
            assert(8 * (c * (w * (w * w))) == v * o) by (nonlinear_arith) requires c == (v * v) * (v * v), o == n * m, n == m * m, m == 2 * (v * w);
        }
        lemma_cg(4 * b, u * n, x3, xn * n);
        lemma_cg(a, l * m, 4 * b - x3, u * n - xn * n);
        let yr = l * (u - xn) - v;
        lemma_cg(a * (4 * b - x3), (l * m) * (u * n - xn * n), 8 * ((y * y) * (y * y)), v * o);
        assert((l * m) * (u * n - xn * n) - v * o == yr * o) by (nonlinear_arith) requires o == n * m, yr == l * (u - xn) - v;
        lemma_cg_md(yr);
        lemma_cg(yn, yr, o, o);
        assert(cg(y3, yn * o));
        lemma_to_z3(z3, m, xn, yn);
        lemma_rep_unique(x3, y3, z3, xn, yn);
    }
}
proof fn lemma_to_z3(z3: int, m: int, xn: int, yn: int)
    requires cg(z3, m)
    ensures cg(xn * (m * m), xn * (z3 * z3)), cg(yn * ((m * m) * m), yn * (z3 * z3 * z3))
{
    lemma_cg(z3, m, z3, m); lemma_cg(z3 * z3, m * m, z3, m);
    lemma_cg(xn, xn, z3 * z3, m * m);
    lemma_cg(yn, yn, z3 * z3 * z3, m * m * m);
}
// the addition formula
proof fn lemma_add(x: int, y: int, z: int, x2: int, y2: int, z2: int, a: int, b: int, a2: int, b2: int, d: int, e: int, f: int, x3: int, y3: int, z3: int)
    requires
        md(z) != 0, md(z2) != 0,
        cg(a, x * (z2 * z2)), cg(b, y * (z2 * z2 * z2)), cg(a2, x2 * (z * z)), cg(b2, y2 * (z * z * z)),
        cg(d, a - a2), cg(e, b - b2), cg(f, (a + a2) * (d * d)), cg(x3, e * e - f), cg(2 * y3, e * (f - 2 * x3) - (b + b2) * (d * d * d)), cg(z3, (z * z2) * d),
    ensures
        ({
            let (p, q) = (aff(x, y, z), aff(x2, y2, z2));
            let (u, v) = p->0;
            let (r, s) = q->0;
            &&& p is Some && q is Some
            &&& cg(u, r) <==> md(d) == 0
            &&& cg(v, s) <==> md(e) == 0
            &&& md(d) != 0 ==> aff(x3, y3, z3) == gadd(p, q)
        }),
{
    lemma_rep(x, y, z); lemma_rep(x2, y2, z2); lemma_two();
    let (u, v) = aff(x, y, z)->0;
    let (r, s) = aff(x2, y2, z2)->0;
    let w = z * z2;
    let c = w * w;
    let k = c * w;
    lemma_nz(z, z2); lemma_nz(w, w); lemma_nz(c, w);
    // a is u w^2, a2 is r w^2, b is v w^3, b2 is s w^3
    lemma_cg(x, u * (z * z), z2 * z2, z2 * z2);
    assert((u * (z * z)) * (z2 * z2) == u * c) by (nonlinear_arith) requires c == w * w, w == z * z2;
    lemma_cg(x2, r * (z2 * z2), z * z, z * z);
    assert((r * (z2 * z2)) * (z * z) == r * c) by (nonlinear_arith) requires c == w * w, w == z * z2;
    lemma_cg(y, v * (z * z * z), z2 * z2 * z2, z2 * z2 * z2);
    assert((z * z * z) * (z2 * z2 * z2) == k) by (nonlinear_arith) requires k == c * w, c == w * w, w == z * z2;
    assert((v * (z * z * z)) * (z2 * z2 * z2) == v * ((z * z * z) * (z2 * z2 * z2))) by (nonlinear_arith);
    lemma_cg(y2, s * (z2 * z2 * z2), z * z * z, z * z * z);
    assert((s * (z2 * z2 * z2)) * (z * z * z) == s * ((z * z * z) * (z2 * z2 * z2))) by (nonlinear_arith);
    assert(cg(a, u * c) && cg(a2, r * c) && cg(b, v * k) && cg(b2, s * k));
    let (dx, dy) = (u - r, v - s);
    lemma_cg(a, u * c, a2, r * c);
    lemma_cg(b, v * k, b2, s * k);
    assert(u * c - r * c == dx * c && v * k - s * k == dy * k && u * c + r * c == (u + r) * c && v * k + s * k == (v + s) * k) by (nonlinear_arith) requires dx == u - r, dy == v - s;
    assert(cg(d, dx * c) && cg(e, dy * k));
    lemma_nz(dx, c); lemma_nz(dy, k);
    lemma_md_small(u); lemma_md_small(r); lemma_md_small(v); lemma_md_small(s);
    if md(dx) == 0 { lemma_cg(dx, 0, r, r); assert(dx + r == u); } else { if cg(u, r) { lemma_cg(u, r, r, r); assert(r - r == 0); } }
    if md(dy) == 0 { lemma_cg(dy, 0, s, s); assert(dy + s == v); } else { if cg(v, s) { lemma_cg(v, s, s, s); assert(s - s == 0); } }
    if md(d) != 0 {
        let l = slope(u, v, r, s);
        let i = inv(md(dx));
        lemma_inv(dx);
        lemma_cg_md(dy * i);
        lemma_cg(l, dy * i, dx, dx);
        lemma_cg(dx * i, 1, dy, dy);
        assert(dy * i * dx == dx * i * dy) by (nonlinear_arith);
        assert(1 * dy == dy);
        assert(cg(l * dx, dy));
        // z3
        let m = w * d;
        let n = m * m;
        let o = n * m;
        lemma_nz(w, d);
        // e is l m
        lemma_cg(d, dx * c, w, w);
        assert(d * w == m) by (nonlinear_arith) requires m == w * d;
        lemma_cg(l, l, m, (dx * c) * w);
        lemma_cg(l * dx, dy, k, k);
        assert(l * ((dx * c) * w) == (l * dx) * k) by (nonlinear_arith) requires k == c * w;
        assert(cg(e, l * m));
        // f is (u + r) m^2
        lemma_cg(a + a2, (u + r) * c, d * d, d * d);
        assert(((u + r) * c) * (d * d) == (u + r) * n) by (nonlinear_arith) requires n == m * m, m == w * d, c == w * w;
        assert(cg(f, (u + r) * n));
        let (xn, yn) = on_line(l, u, v, r);
        let xr = l * l - u - r;
        lemma_cg_md(xr);
        lemma_cg(e, l * m, e, l * m);
        lemma_cg(e * e, (l * m) * (l * m), f, (u + r) * n);
        assert((l * m) * (l * m) - (u + r) * n == xr * n) by (nonlinear_arith) requires n == m * m, xr == l * l - u - r;
        lemma_cg(xn, xr, n, n);
        assert(cg(x3, xn * n));
        // 2 y3
        lemma_cg(2, 2, x3, xn * n);
        lemma_cg(f, (u + r) * n, 2 * x3, 2 * (xn * n));
        lemma_cg(e, l * m, f - 2 * x3, (u + r) * n - 2 * (xn * n));
        lemma_cg(b + b2, (v + s) * k, d * d * d, d * d * d);
        assert(k * (d * d * d) == o) by (nonlinear_arith) requires o == n * m, n == m * m, m == w * d, k == c * w, c == w * w;
        assert(((v + s) * k) * (d * d * d) == (v + s) * (k * (d * d * d))) by (nonlinear_arith);
        lemma_cg(e * (f - 2 * x3), (l * m) * ((u + r) * n - 2 * (xn * n)), (b + b2) * (d * d * d), (v + s) * o);
        let h = l * (u + r - 2 * xn) - (v + s);
        assert((l * m) * ((u + r) * n - 2 * (xn * n)) - (v + s) * o == h * o) by (nonlinear_arith) requires o == n * m, h == l * (u + r - 2 * xn) - (v + s);
        assert(cg(2 * y3, h * o));
        // h is 2 yn
        let yr = l * (u - xn) - v;
        lemma_cg(l * dx, dy, 2 * yr, 2 * yr);
        // 2 yr - h == l dx - dy
        assert(2 * yr - l * dx + dy == h) by (nonlinear_arith) requires yr == l * (u - xn) - v, h == l * (u + r - 2 * xn) - (v + s), dx == u - r, dy == v - s;
        lemma_cg(2 * yr, 2 * yr, l * dx, dy);
        lemma_cg(2 * yr - l * dx, 2 * yr - dy, dy, dy);
        assert(2 * yr - dy + dy == 2 * yr);
        assert(cg(h, 2 * yr));
        lemma_cg_md(yr);
        lemma_cg(2, 2, yn, yr);
        lemma_cg(h, 2 * yn, o, o);
        assert((2 * yn) * o == (yn * o) * 2) by (nonlinear_arith);
        assert(2 * y3 == y3 * 2);
        lemma_cancel(y3, yn * o, 2);
        lemma_to_z3(z3, m, xn, yn);
        lemma_rep_unique(x3, y3, z3, xn, yn);
    }
}
// what the code computes, step by step
pub open spec fn md3(a: int) -> int { md(md(a + a) + a) }
proof fn lemma_chain2(a: int)
    ensures md(md(md(a) + md(a))) == md(2 * a), md(md(a) + md(a)) == md(2 * a)
{ lemma_md2(a, a); lemma_md(2 * a); assert(a + a == 2 * a); }
impl Point256 {
    pub open spec fn ok(&self) -> bool { self.x.ok() && self.y.ok() && self.z.ok() }
    pub open spec fn at(&self) -> Aff { aff(self.x.val(), self.y.val(), self.z.val()) }
}
impl NPoint256 {
    pub open spec fn ok(&self) -> bool { self.x.ok() && self.y.ok() }
    // (0, 0) stands for the point at infinity
    pub open spec fn is(&self, p: Aff) -> bool { match p { None => self.x.val() == 0 && self.y.val() == 0, Some((x, y)) => self.x.val() == x && self.y.val() == y } }
}
//@spec
// the number with these eight 32-bit words, most significant first
pub open spec fn w256(h: int, g: int, f: int, e: int, d: int, c: int, b: int, a: int) -> int { lin8(a, b, c, d, e, f, g, h) }
pub open spec fn base_x() -> int { w256(0x6b17d1f2, 0xe12c4247, 0xf8bce6e5, 0x63a440f2, 0x77037d81, 0x2deb33a0, 0xf4a13945, 0xd898c296) }
pub open spec fn base_y() -> int { w256(0x4fe342e2, 0xfe1a7f9b, 0x8ee7eb4a, 0x7c0f9e16, 0x2bce3357, 0x6b315ece, 0xcbb64068, 0x37bf51f5) }
pub open spec fn curve_b() -> int { w256(0x5ac635d8, 0xaa3a93e7, 0xb3ebbd55, 0x769886bc, 0x651d06b0, 0xcc53b0f6, 0x3bce3c3e, 0x27d2604b) }
pub open spec fn order() -> int { w256(0xffffffff, 0x00000000, 0xffffffff, 0xffffffff, 0xbce6faad, 0xa7179e84, 0xf3b9cac2, 0xfc632551) }
//@const G
    ensures G.ok(), G.x.val() == base_x(), G.y.val() == base_y(), G.z.val() == 1
//@consthint G
    proof { lemma_pw(); reveal(p256); lemma_lin(__ret.x.v@); lemma_lin(__ret.y.v@); reveal(lin8); }
//@const B
    ensures B.ok(), B.val() == curve_b()
//@consthint B
    proof { lemma_pw(); reveal(p256); lemma_lin(__ret.v@); reveal(lin8); }
//@const N
    ensures N.ok(), N.val() == order()
//@consthint N
    proof { lemma_pw(); reveal(p256); lemma_lin(__ret.v@); reveal(lin8); }
//@const INFTY
    ensures INFTY.ok(), INFTY.x.val() == 1, INFTY.y.val() == 1, INFTY.z.val() == 0
//@consthint INFTY
    proof { lemma_pw(); reveal(p256); }
//@fn <Point256 as Clone>::clone
    ensures r == *self,
//@fn Point256::choose
    requires flag.0 <= 1
    ensures flag.0 == 0 ==> r.x.val() == a.x.val() && r.y.val() == a.y.val() && r.z.val() == a.z.val(), flag.0 == 1 ==> r.x.val() == b.x.val() && r.y.val() == b.y.val() && r.z.val() == b.z.val(),
//@fn Point256::normalize
    requires self.ok()
    ensures r.ok(), r.is(self.at()),
//@hint ret
    proof {
        let (x, y, z) = (self.x.val(), self.y.val(), self.z.val());
        lemma_bound(self.z); lemma_pw(); lemma_md_small(z);
        if z == 0 { lemma_inv_0(); lemma_two(); assert(0 * 0 == 0 && x * 0 == 0 && y * 0 == 0 && 0 * md(0) == 0); }
    }
//@fn Point256::double
    requires self.ok()
    ensures r.ok(), r.at() == gdbl(self.at()),
//@hint start
    let ghost (px, py, pz) = (self.x.val(), self.y.val(), self.z.val());
    let ghost (q, s) = (pz * pz, py * py);
    proof { lemma_pw(); lemma_bound(self.z); lemma_md_small(pz); lemma_cg_md(q); lemma_cg_md(s); }
//@hint after /let mult =/
    proof {
        lemma_cg(px, px, z2.val(), q);
        lemma_cg_md(px - z2.val()); lemma_cg_md(px + z2.val());
        lemma_cg(x_add_z2.val(), px + q, x_sub_z2.val(), px - q);
        lemma_cg_md(x_add_z2.val() * x_sub_z2.val());
        let m = mult.val();
        assert(cg(m, (px + q) * (px - q)));
        assert((px + q) * (px - q) == (px - q) * (px + q)) by (nonlinear_arith);
        lemma_cg(m, (px - q) * (px + q), m, (px - q) * (px + q));
        lemma_cg_md(m + m); lemma_cg_md(md(m + m) + m);
        lemma_cg(md(m + m), m + m, m, m);
        lemma_cg(3, 3, m, (px - q) * (px + q));
        assert(m + m + m == 3 * m);
        assert(cg(md(md(m + m) + m), 3 * ((px - q) * (px + q))));
    }
//@hint after /let b8 =/
    proof {
        lemma_cg(px, px, y2.val(), s); lemma_cg_md(px * y2.val());
        let (p, p2, p4) = (b.val(), b2.val(), b4.val());
        lemma_cg_md(p + p); lemma_cg_md(p2 + p2); lemma_cg_md(p4 + p4);
        lemma_cg(p2, p + p, p2, p + p); lemma_cg(p4, 4 * p, p4, 4 * p);
        assert(cg(p4, 4 * p)) by { assert(p + p + (p + p) == 4 * p); }
        assert(cg(b8.val(), 8 * p)) by { assert(4 * p + 4 * p == 8 * p); }
    }
//@hint after /let x_new =/
    proof {
        lemma_cg_md(a.val() * a.val());
        lemma_cg(md(a.val() * a.val()), a.val() * a.val(), b8.val(), 8 * b.val());
        lemma_cg_md(md(a.val() * a.val()) - b8.val());
        assert(cg(x_new.val(), a.val() * a.val() - 8 * b.val()));
    }
//@hint after /let y4_8 =/
    proof {
        let (p, p2, p4) = (y4.val(), y4_2.val(), y4_4.val());
        lemma_cg_md(y2.val() * y2.val()); lemma_cg(y2.val(), s, y2.val(), s);
        lemma_cg_md(p + p); lemma_cg_md(p2 + p2); lemma_cg_md(p4 + p4);
        lemma_cg(p2, p + p, p2, p + p); lemma_cg(p4, 4 * p, p4, 4 * p);
        assert(cg(p4, 4 * p)) by { assert(p + p + (p + p) == 4 * p); }
        assert(cg(y4_8.val(), 8 * p)) by { assert(4 * p + 4 * p == 8 * p); }
        lemma_cg(8, 8, p, s * s);
        let d = b4.val() - x_new.val();
        let m = a.val() * md(d);
        lemma_cg_md(d); lemma_cg_md(m); lemma_cg_md(md(m) - y4_8.val());
        lemma_cg(b4.val(), 4 * b.val(), x_new.val(), x_new.val());
        lemma_cg(a.val(), a.val(), md(d), 4 * b.val() - x_new.val());
        lemma_cg(md(m), a.val() * (4 * b.val() - x_new.val()), y4_8.val(), 8 * (s * s));
        assert(cg(md(md(m) - y4_8.val()), a.val() * (4 * b.val() - x_new.val()) - 8 * (s * s)));
    }
//@hint after /let z_new =/
    proof {
        let t = md(py + pz);
        let u = md(t * t);
        let v = md(z2.val() + y2.val());
        lemma_cg_md(py + pz); lemma_cg_md(t * t); lemma_cg_md(z2.val() + y2.val()); lemma_cg_md(u - v);
        lemma_cg(t, py + pz, t, py + pz);
        lemma_cg(z2.val(), q, y2.val(), s);
        lemma_cg(u, (py + pz) * (py + pz), v, q + s);
        assert((py + pz) * (py + pz) - (q + s) == 2 * (py * pz)) by (nonlinear_arith) requires q == pz * pz, s == py * py;
        assert(cg(z_new.val(), 2 * (py * pz)));
        if pz != 0 { lemma_dbl(px, py, pz, a.val(), b.val(), x_new.val(), y_new.val(), z_new.val()); }
        else { lemma_two(); }
    }
//@fn Point256::add
    requires self.ok(), b.ok()
    ensures r.ok(), r.at() == gadd(self.at(), b.at()),
//@hint start
    let ghost (px, py, pz) = (self.x.val(), self.y.val(), self.z.val());
    let ghost (qx, qy, qz) = (b.x.val(), b.y.val(), b.z.val());
    proof { lemma_pw(); lemma_bound(self.z); lemma_md_small(pz); lemma_bound(b.z); lemma_md_small(qz); lemma_two(); }
//@hint after /let by =/
    proof {
        lemma_cg_md(pz * pz); lemma_cg_md(qz * qz);
        lemma_cg(pz, pz, z2.val(), pz * pz); lemma_cg(qz, qz, bz2.val(), qz * qz);
        lemma_cg_md(pz * z2.val()); lemma_cg_md(qz * bz2.val());
        assert(pz * (pz * pz) == pz * pz * pz && qz * (qz * qz) == qz * qz * qz) by (nonlinear_arith);
        assert(cg(z3.val(), pz * pz * pz) && cg(bz3.val(), qz * qz * qz));
        lemma_cg_md(px * bz2.val()); lemma_cg_md(py * bz3.val()); lemma_cg_md(qx * z2.val()); lemma_cg_md(qy * z3.val());
        lemma_cg(px, px, bz2.val(), qz * qz); lemma_cg(py, py, bz3.val(), qz * qz * qz);
        lemma_cg(qx, qx, z2.val(), pz * pz); lemma_cg(qy, qy, z3.val(), pz * pz * pz);
    }
    let ghost (ax, ay, bbx, bby) = (x.val(), y.val(), bx.val(), by.val());
//@hint after /let e =/
    let ghost (d, dd) = (xdiff.val(), ydiff.val());
    proof {
        lemma_cg_md(ax - bbx); lemma_cg_md(ay - bby);
        lemma_cg_md(d * d); lemma_cg_md(d * xdiff2.val()); lemma_cg_md(dd * dd);
        lemma_cg(d, d, xdiff2.val(), d * d);
        assert(d * (d * d) == d * d * d) by (nonlinear_arith);
        assert(cg(xdiff3.val(), d * d * d));
        lemma_cg_md(ax + bbx); lemma_cg_md(ay + bby);
        lemma_cg(xsum.val(), ax + bbx, xdiff2.val(), d * d);
        lemma_cg_md(xsum.val() * xdiff2.val());
        assert(cg(e.val(), (ax + bbx) * (d * d)));
    }
//@hint after /let x_new_2 =/
    proof {
        lemma_cg_md(ydiff2.val() - e.val());
        lemma_cg(ydiff2.val(), dd * dd, e.val(), e.val());
        assert(cg(x_new.val(), dd * dd - e.val()));
        lemma_cg_md(x_new.val() + x_new.val());
        assert(x_new.val() + x_new.val() == 2 * x_new.val());
    }
//@hint after /let t5 =/
    proof {
        let (f, xn) = (e.val(), x_new.val());
        lemma_cg(ysum.val(), ay + bby, xdiff3.val(), d * d * d);
        lemma_cg_md(ysum.val() * xdiff3.val());
        lemma_cg(f, f, x_new_2.val(), 2 * xn);
        lemma_cg_md(f - x_new_2.val());
        lemma_cg(dd, dd, md(f - x_new_2.val()), f - 2 * xn);
        lemma_cg_md(dd * md(f - x_new_2.val()));
        lemma_cg(t5.val(), dd * (f - 2 * xn), t4.val(), (ay + bby) * (d * d * d));
        lemma_cg_md(t5.val() - t4.val());
        assert(cg(md(t5.val() - t4.val()), dd * (f - 2 * xn) - (ay + bby) * (d * d * d)));
    }
//@hint after /let ydiff_nonzero =/
    proof {
        assert(cg(2 * y_new.val(), dd * (e.val() - 2 * x_new.val()) - (ay + bby) * (d * d * d)));
        lemma_cg_md(pz * qz); lemma_cg(md(pz * qz), pz * qz, d, d); lemma_cg_md(md(pz * qz) * d);
        assert(cg(z_new.val(), (pz * qz) * d));
        lemma_cg_md(ax - bbx); lemma_cg_md(ay - bby);
        lemma_md_small(d); lemma_md_small(dd);
        if pz != 0 && qz != 0 {
            lemma_add(px, py, pz, qx, qy, qz, ax, ay, bbx, bby, d, dd, e.val(), x_new.val(), y_new.val(), z_new.val());
        }
        let (f, g) = (xdiff_nonzero.0, ydiff_nonzero.0);
        assert(f <= 1 && g <= 1 ==> (f | g) <= 1 && ((f | g) == 0 <==> f == 0 && g == 0)) by (bit_vector);
        let h = (1 - g) as u32;
        assert(f <= 1 && h <= 1 ==> (f | h) <= 1 && ((f | h) == 0 <==> f == 0 && h == 0)) by (bit_vector);
    }
//@spec
// the number written in the limbs from i on
pub open spec fn top(s: Seq<Wrapping<u32>>, i: int) -> int
    decreases 8 - i
{ if i >= 8 { 0 } else { 0x1_0000_0000 * top(s, i + 1) + s[i].0 } }
proof fn lemma_top(s: Seq<Wrapping<u32>>)
    ensures top(s, 0) == limbs(s, 8), top(s, 8) == 0
{
    lemma_lin(s); reveal(lin8);
    reveal_with_fuel(top, 9);
}
proof fn lemma_top_pos(s: Seq<Wrapping<u32>>, i: int)
    ensures top(s, i) >= 0
    decreases 8 - i
{ if i < 8 { lemma_top_pos(s, i + 1); } }
// the k topmost bits of a limb
pub open spec fn hi_bits(x: u32, k: int) -> int { if k == 0 { 0 } else { (x >> ((32 - k) as u32)) as int } }
proof fn lemma_hi_bits(x: u32, k: int)
    requires 0 <= k < 32
    ensures
        hi_bits(x, k + 1) == 2 * hi_bits(x, k) + ((x >> ((31 - k) as u32)) & 1), ((x >> ((31 - k) as u32)) & 1) <= 1,
        two((k + 1) as nat) == 2 * two(k as nat), hi_bits(x, 0) == 0, hi_bits(x, 32) == x,
{
    let j = (31 - k) as u32;
    assert(j < 31 ==> x >> j == add(mul(2, x >> add(j, 1)), (x >> j) & 1) && x >> add(j, 1) <= 0x7fff_ffff) by (bit_vector);
    assert((x >> j) & 1 <= 1) by (bit_vector);
    assert(x >> 31 == (x >> 31) & 1) by (bit_vector);
    assert(x >> 0 == x) by (bit_vector);
    if j < 31 { assert(x >> add(j, 1) == x >> ((32 - k) as u32)); }
}
// limbs i + 1..8 and the k topmost bits of limb i
#[verifier::opaque]
pub open spec fn head(s: Seq<Wrapping<u32>>, i: int, k: int) -> int { top(s, i + 1) * two(k as nat) + hi_bits(s[i].0, k) }
proof fn lemma_head_ends(s: Seq<Wrapping<u32>>, i: int)
    requires 0 <= i < 8
    ensures head(s, i, 0) == top(s, i + 1), head(s, i, 32) == top(s, i)
{
    reveal(head);
    lemma_hi_bits(s[i].0, 0);
    assert(two(0) == 1 && two(32) == 0x1_0000_0000) by (compute);
    let t = top(s, i + 1);
    assert(t * 1 == t);
}
proof fn lemma_head(s: Seq<Wrapping<u32>>, i: int, k: int)
    requires 0 <= i < 8, 0 <= k < 32
    ensures
        head(s, i, k) >= 0, ((s[i].0 >> ((31 - k) as u32)) & 1) <= 1,
        head(s, i, k + 1) == 2 * head(s, i, k) + ((s[i].0 >> ((31 - k) as u32)) & 1),
{
    reveal(head);
    lemma_top_pos(s, i + 1);
    lemma_hi_bits(s[i].0, k);
    let (t, w) = (top(s, i + 1), two(k as nat));
    assert(t * w >= 0) by (nonlinear_arith) requires t >= 0, w >= 0;
    assert(t * (2 * w) == 2 * (t * w)) by (nonlinear_arith);
}
// one step of double and add
proof fn lemma_mul_step(h: int, b: int, p: Aff)
    requires h >= 0, 0 <= b <= 1
    ensures gmul((2 * h + b) as nat, p) == if b == 1 { gadd(gdbl(gmul(h as nat, p)), p) } else { gdbl(gmul(h as nat, p)) }
{
    let n = (2 * h + b) as nat;
    assert(n / 2 == h && n % 2 == b);
    if n == 0 { assert(gmul(0, p) is None); }
}
// infinity to begin with, the whole scalar in the end
proof fn lemma_mul_top(n: &Int256, p: Aff)
    ensures gmul(top(n.v@, 8) as nat, p) is None, aff(1, 1, 0) is None, top(n.v@, 0) == n.val()
{ lemma_pw(); lemma_md(0); lemma_top(n.v@); }
//@fn Point256::mult_scalar
    requires self.ok()
    ensures r.ok(), r.at() == gmul(n.val() as nat, self.at()),
//@hint start
    hide(gmul); hide(gadd); hide(gdbl); hide(top); hide(aff);
    proof { lemma_pw(); lemma_md(0); lemma_mul_top(n, self.at()); }
//@loop 0 it
    invariant it.index@ <= 8, self.ok(), ret.ok(), ret.at() == gmul(top(n.v@, 8 - it.index@) as nat, self.at()),
//@hint loop 0 start
    proof { lemma_head_ends(n.v@, i as int); }
//@loop 1 jt
    invariant
        jt.index@ <= 32, i < 8, self.ok(), ret.ok(),
        ret.at() == gmul(head(n.v@, i as int, jt.index@) as nat, self.at()),
//@hint loop 1 start
    let ghost (k, w) = (jt.index@, n.v@[i as int].0);
    let ghost h = head(n.v@, i as int, k);
    proof {
        assert(j == 31 - k);
        lemma_head(n.v@, i as int, k);
        lemma_mul_step(h, ((w >> ((31 - k) as u32)) & 1) as int, self.at());
    }
//@hint after /let bit =/
    proof { assert(bit.0 == (w >> ((31 - k) as u32)) & 1); }
//@hint loop 0 end
    proof { lemma_head_ends(n.v@, i as int); }
//@spec
// ---- the curve y^2 = x^3 - 3 x + b
pub open spec fn curve(x: int, y: int) -> bool { cg(y * y, x * x * x - 3 * x + curve_b()) }
pub open spec fn on_curve(p: Aff) -> bool { match p { None => true, Some((x, y)) => curve(x, y) } }
proof fn lemma_dist(a: int, b: int, c: int)
    ensures a * (b + c) == a * b + a * c, a * (b - c) == a * b - a * c
{
    assert(a * (b + c) == a * b + a * c) by (nonlinear_arith);
    assert(a * (b - c) == a * b - a * c) by (nonlinear_arith);
}
proof fn lemma_diff(a: int, b: int)
    ensures cg(a, b) <==> md(a - b) == 0
{
    lemma_two();
    if cg(a, b) { lemma_cg(a, b, b, b); assert(b - b == 0); }
    if md(a - b) == 0 { lemma_cg(a - b, 0, b, b); assert(a - b + b == a && 0 + b == b); }
}
// the line through (x, y) with slope l meets the curve at x, u and l^2 - x - u: g(t) = al t + be is what is left of the cubic
proof fn lemma_line(l: int, x: int, y: int, u: int, al: int, be: int)
    requires
        al == 2 * (l * l) * x - 2 * (l * y) - 3 - (x * u + (x + u) * (l * l - x - u)),
        be == curve_b() - (y - l * x) * (y - l * x) + (x * u) * (l * l - x - u),
        md(al) == 0, curve(x, y),
        cg(al * x + be, 0),
    ensures on_curve(Some(on_line(l, x, y, u)))
{
    lemma_two();
    let b = curve_b();
    let r = l * l - x - u;
    let (xn, yn) = on_line(l, x, y, u);
    lemma_cg_md(r);
    let h = l * (x - xn) - y;
    lemma_cg_md(h);
    let g = l * (x - r) - y;
    lemma_cg(x, x, xn, r); lemma_cg(l, l, x - xn, x - r); lemma_cg(l * (x - xn), l * (x - r), y, y);
    assert(cg(yn, g));
    lemma_cg(yn, g, yn, g);
    lemma_cg(al, 0, x, x); lemma_cg(al, 0, r, r);
    assert(0 * x == 0 && 0 * r == 0);
    lemma_cg(al * x + be, 0, al * x, 0);
    assert(al * x + be - al * x == be);
    lemma_cg(al * r, 0, be, 0);
    assert(cg(al * r + be, 0));
    lemma_cubic(l, x, y, u, al, be, r, b);
    let e = r * r * r - 3 * r + b;
    lemma_diff(e, g * g);
    lemma_cg(xn, r, xn, r); lemma_cg(xn * xn, r * r, xn, r); lemma_cg(3, 3, xn, r);
    lemma_cg(xn * xn * xn, r * r * r, 3 * xn, 3 * r);
    lemma_cg(xn * xn * xn - 3 * xn, r * r * r - 3 * r, b, b);
}
// the value of the cubic at t
proof fn lemma_cubic(l: int, x: int, y: int, u: int, al: int, be: int, t: int, b: int)
    requires
        al == 2 * (l * l) * x - 2 * (l * y) - 3 - (x * u + (x + u) * (l * l - x - u)),
        be == b - (y - l * x) * (y - l * x) + (x * u) * (l * l - x - u),
    ensures
        t * t * t - 3 * t + b - (l * (x - t) - y) * (l * (x - t) - y) == al * t + be + ((t - x) * (t - u)) * (t - (l * l - x - u)),
{
    let (m, z) = (l * l, l * y);
    let r = m - x - u;
    // the square
    let w = y - l * x;
    let s = l * t;
    let mx = m * x;
    let tt = t * t;
    lemma_dist(l, x, t);
    assert(l * (x - t) - y == -(w + s));
    lemma_sq(w, s);
    assert(s * s == m * tt) by (nonlinear_arith) requires s == l * t, m == l * l, tt == t * t;
    lemma_dist(l, y, l * x);
    assert(l * (l * x) == mx) by (nonlinear_arith) requires mx == m * x, m == l * l;
    let k = z - mx;
    assert(l * w == k);
    assert(s * w == k * t) by (nonlinear_arith) requires s == l * t, l * w == k;
    // the product
    let (a, p) = (x + u, x * u);
    let q = (t - x) * (t - u);
    assert(q == tt - a * t + p) by (nonlinear_arith) requires q == (t - x) * (t - u), a == x + u, p == x * u, tt == t * t;
    let ar = a * r;
    lemma_dist(q, t, r);
    assert(q * t == t * t * t - a * tt + p * t) by (nonlinear_arith) requires q == tt - a * t + p, tt == t * t;
    assert(q * r == r * tt - ar * t + p * r) by (nonlinear_arith) requires q == tt - a * t + p, ar == a * r;
    assert(m * tt == a * tt + r * tt) by (nonlinear_arith) requires m == a + r;
    assert(2 * m * x == 2 * mx) by (nonlinear_arith) requires mx == m * x;
    assert(al == -2 * k - 3 - (p + ar));
    assert(al * t == -2 * (k * t) - 3 * t - (p * t + ar * t)) by (nonlinear_arith) requires al == -2 * k - 3 - (p + ar);
}
proof fn lemma_sq(w: int, s: int)
    ensures (-(w + s)) * (-(w + s)) == s * s + 2 * (s * w) + w * w
{ assert((-(w + s)) * (-(w + s)) == s * s + 2 * (s * w) + w * w) by (nonlinear_arith); }
proof fn lemma_curve_dbl(p: Aff)
    requires on_curve(p)
    ensures on_curve(gdbl(p))
{
    if let Some((x, y)) = p {
        if md(y) != 0 {
            lemma_two();
            let l = slope_t(x, y);
            let i = inv(md(2 * y));
            let k = 3 * (x * x) - 3;
            lemma_nz(2, y); lemma_inv(2 * y); lemma_cg_md(k * i);
            lemma_cg(l, k * i, 2 * y, 2 * y); lemma_cg(2 * y * i, 1, k, k);
            assert(k * i * (2 * y) == 2 * y * i * k) by (nonlinear_arith);
            assert(1 * k == k);
            lemma_diff(k, l * (2 * y));
            let al = 2 * (l * l) * x - 2 * (l * y) - 3 - (x * x + (x + x) * (l * l - x - x));
            let be = curve_b() - (y - l * x) * (y - l * x) + (x * x) * (l * l - x - x);
            assert(al == k - l * (2 * y)) by (nonlinear_arith) requires al == 2 * (l * l) * x - 2 * (l * y) - 3 - (x * x + (x + x) * (l * l - x - x)), k == 3 * (x * x) - 3;
            lemma_cubic(l, x, y, x, al, be, x, curve_b());
            lemma_diff(x * x * x - 3 * x + curve_b(), y * y);
            assert((l * (x - x) - y) * (l * (x - x) - y) == y * y) by (nonlinear_arith);
            assert(((x - x) * (x - x)) * (x - (l * l - x - x)) == 0) by (nonlinear_arith);
            lemma_line(l, x, y, x, al, be);
        }
    }
}
proof fn lemma_curve_add(p: Aff, q: Aff)
    requires on_curve(p), on_curve(q)
    ensures on_curve(gadd(p, q))
{
    if p is Some && q is Some {
        let (x, y) = p->0;
        let (u, v) = q->0;
        if cg(x, u) { lemma_curve_dbl(p); } else {
            lemma_two();
            let l = slope(x, y, u, v);
            let (dx, dy) = (x - u, y - v);
            lemma_diff(x, u);
            let i = inv(md(dx));
            lemma_inv(dx); lemma_cg_md(dy * i);
            lemma_cg(l, dy * i, dx, dx); lemma_cg(dx * i, 1, dy, dy);
            assert(dy * i * dx == dx * i * dy) by (nonlinear_arith);
            assert(1 * dy == dy);
            let al = 2 * (l * l) * x - 2 * (l * y) - 3 - (x * u + (x + u) * (l * l - x - u));
            let be = curve_b() - (y - l * x) * (y - l * x) + (x * u) * (l * l - x - u);
            let b = curve_b();
            lemma_cubic(l, x, y, u, al, be, x, b);
            lemma_diff(x * x * x - 3 * x + b, y * y);
            assert((l * (x - x) - y) * (l * (x - x) - y) == y * y) by (nonlinear_arith);
            assert(((x - x) * (x - u)) * (x - (l * l - x - u)) == 0) by (nonlinear_arith);
            assert(cg(al * x + be, 0));
            lemma_cubic(l, x, y, u, al, be, u, b);
            assert(((u - x) * (u - u)) * (u - (l * l - x - u)) == 0) by (nonlinear_arith);
            let g = l * (x - u) - y;
            lemma_cg(l * dx, dy, y, y);
            assert(dy - y == -v);
            lemma_cg(g, -v, g, -v);
            assert((-v) * (-v) == v * v) by (nonlinear_arith);
            lemma_diff(u * u * u - 3 * u + b, g * g);
            assert(cg(al * u + be, 0));
            lemma_cg(al * x + be, 0, al * u + be, 0);
            lemma_dist(al, x, u);
            assert(md(al * dx) == 0);
            lemma_nz(al, dx);
            lemma_line(l, x, y, u, al, be);
        }
    }
}
// multiples of a point of the curve are on the curve; (0, 0) is not, so it stands for infinity only
proof fn lemma_curve_mul(n: nat, p: Aff)
    requires on_curve(p)
    ensures on_curve(gmul(n, p))
    decreases n
{
    if n > 0 {
        lemma_curve_mul(n / 2, p);
        lemma_curve_dbl(gmul(n / 2, p));
        lemma_curve_add(gdbl(gmul(n / 2, p)), p);
    }
}
proof fn lemma_curve_origin()
    ensures !curve(0, 0)
{
    lemma_pw(); reveal(p256); reveal(lin8);
    let z = 0int;
    assert(z * z == 0 && z * z * z - 3 * z + curve_b() == curve_b()) by (nonlinear_arith) requires z == 0;
    lemma_md(0); lemma_md(curve_b());
}
// C07: the normalized result is (0, 0) exactly when n times P is the point at infinity
proof fn lemma_infinity(n: nat, p: Aff, r: NPoint256)
    requires on_curve(p), r.is(gmul(n, p))
    ensures (r.x.val() == 0 && r.y.val() == 0) <==> gmul(n, p) is None
{ lemma_curve_mul(n, p); lemma_curve_origin(); }
// the curve has order() points, a prime number: no multiple below that of a finite point is infinity
#[verifier::external_body]
pub proof fn axiom_order(x: int, y: int, d: nat)
    requires curve(x, y), 0 < d < order()
    ensures gmul(d, Some((x, y))) is Some
{ unimplemented!() }
// the small multiples are sums: 0 P is infinity, 1 P is P, 2 P is P + P
proof fn lemma_small(p: Aff)
    requires canon(p)
    ensures gmul(0, p) is None, gmul(1, p) == p, gmul(2, p) == gadd(p, p)
{
    reveal_with_fuel(gmul, 4);
}
pub proof fn lemma_base()
    ensures aff(base_x(), base_y(), 1) == Some((base_x(), base_y())), curve(base_x(), base_y())
{
    lemma_pw(); lemma_two(); reveal(p256); reveal(lin8);
    reveal(md);
    assert(md(base_y() * base_y()) == md(base_x() * base_x() * base_x() - 3 * base_x() + curve_b())) by (compute);
    let (x, y, o) = (base_x(), base_y(), 1int);
    assert(x * (o * o) == x && y * (o * o * o) == y) by (nonlinear_arith) requires o == 1;
    lemma_rep_unique(x, y, o, x, y);
}
// ---- public points
pub open spec fn valid_point(b: Seq<u8>) -> bool {
    &&& b.len() == 65 && b[0] == 4
    &&& be(b, 1, 32) < p256() && be(b, 33, 32) < p256()
    &&& curve(be(b, 1, 32), be(b, 33, 32))
}
pub open spec fn encodes(b: Seq<u8>, x: int, y: int) -> bool { b.len() == 65 && b[0] == 4 && be(b, 1, 32) == x && be(b, 33, 32) == y }
// C08: what encoding a point gives decodes to that point
proof fn lemma_decode(b: Seq<u8>, p: NPoint256)
    requires p.ok(), encodes(b, p.x.val(), p.y.val()), curve(p.x.val(), p.y.val())
    ensures valid_point(b)
{ }
//@fn NPoint256::to_point
    requires self.ok()
    ensures r.ok(), r.at() == Some((self.x.val(), self.y.val())),
//@hint start
    proof {
        let (x, y) = (self.x.val(), self.y.val());
        lemma_two(); lemma_bound(self.x); lemma_bound(self.y);
        let o = 1int;
        assert(x * (o * o) == x && y * (o * o * o) == y) by (nonlinear_arith) requires o == 1;
        lemma_rep_unique(x, y, o, x, y);
        lemma_pw(); reveal(p256);
    }
//@fn NPoint256::from_uncompressed_bytes
    ensures
        r is Some <==> valid_point(data@),
        r is Some ==> (r->0).ok() && (r->0).x.val() == be(data@, 1, 32) && (r->0).y.val() == be(data@, 33, 32),
//@hint after /let y = Int256/
    proof {
        lemma_be_eq(data@.subrange(1, 33), 0, data@, 1, 32);
        lemma_be_eq(data@.subrange(33, 65), 0, data@, 33, 32);
    }
//@hint after /let zero_if_same =/
    proof {
        let (u, v) = (be(data@, 1, 32), be(data@, 33, 32));
        let b = curve_b();
        lemma_cg_md(v * v); lemma_cg_md(u + u); lemma_cg_md(md(u + u) + u); lemma_cg(md(u + u), u + u, u, u);
        assert(u + u + u == 3 * u);
        lemma_cg(md(v * v), v * v, md(md(u + u) + u), 3 * u);
        lemma_cg_md(md(v * v) + md(md(u + u) + u));
        assert(cg(lhs.val(), v * v + 3 * u));
        lemma_cg_md(u * u); lemma_cg(md(u * u), u * u, u, u); lemma_cg_md(md(u * u) * u);
        lemma_cg(md(md(u * u) * u), u * u * u, b, b);
        lemma_cg_md(md(md(u * u) * u) + b);
        assert(cg(rhs.val(), u * u * u + b));
        lemma_cg_md(lhs.val()); lemma_bound(lhs); lemma_bound(rhs);
        lemma_md_small(lhs.val()); lemma_md_small(rhs.val());
        if cg(v * v + 3 * u, u * u * u + b) {
            lemma_cg(v * v + 3 * u, u * u * u + b, 3 * u, 3 * u);
            assert(v * v + 3 * u - 3 * u == v * v && u * u * u + b - 3 * u == u * u * u - 3 * u + b);
        }
        if curve(u, v) {
            lemma_cg(v * v, u * u * u - 3 * u + b, 3 * u, 3 * u);
            assert(u * u * u - 3 * u + b + 3 * u == u * u * u + b);
        }
    }
//@fn NPoint256::to_uncompressed_bytes
    requires self.ok()
    ensures encodes(r@, self.x.val(), self.y.val()),
//@hint after /b \. push/
    let ghost b0 = b@;
    proof { assert forall|t: Seq<u8>| t.len() == 32 implies be(#[trigger] (b0 + t), 1, 32) == be(t, 0, 32) by { lemma_be_eq(t, 0, b0 + t, 1, 32); } }
//@hint after /b \. v_extend/ #0
    let ghost b1 = b@;
    proof { assert forall|t: Seq<u8>| t.len() == 32 implies be(#[trigger] (b1 + t), 33, 32) == be(t, 0, 32) && be(b1 + t, 1, 32) == be(b1, 1, 32) by { lemma_be_eq(t, 0, b1 + t, 33, 32); lemma_be_eq(b1, 1, b1 + t, 1, 32); } }
