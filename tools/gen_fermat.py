#!/usr/bin/env python3-vt
"""writes contracts/fermat.lean (needs sympy: run with python3-vt)"""
import os
from sympy import factorint
p=2**256-2**224+2**192+2**96-1
seen={}
order=[]
LIM=10**6
def pr(n):
    if n<LIM or n in seen: return
    f=factorint(n-1)
    for a in range(2,1000):
        if pow(a,n-1,n)==1 and all(pow(a,(n-1)//q,n)!=1 for q in f): break
    seen[n]=(a,f)
    for q in f: pr(q)
    order.append(n)
pr(p)
N=0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
pr(N)
out=['''/-
The prime of the P-256 field, the order of the base point (a prime as well), and Fermat's
little theorem for the former: the statement that contracts/p256.rs uses as `axiom_fermat`.  Checked by Lean and Mathlib
(no axioms beyond Lean's own three) whenever a check depends on it; written by
tools/gen_fermat.py, which finds the certificate (primitive roots and the
factors of n - 1); nothing of it has to be believed, Lean checks it all.
-/
import Mathlib.NumberTheory.LucasPrimality
import Mathlib.FieldTheory.Finite.Basic
import Mathlib.Tactic.NormNum.Prime
import Mathlib.Algebra.BigOperators.Associated

/-- `a ^ e % m` by repeated squaring, for an `e` of at most `k` bits. -/
def pm : ℕ → ℕ → ℕ → ℕ → ℕ
  | 0, _, _, m => 1 % m
  | k + 1, a, e, m =>
    if e % 2 = 1 then a * pm k (a * a % m) (e / 2) m % m else pm k (a * a % m) (e / 2) m

theorem pm_eq (k a e m : ℕ) (h : e < 2 ^ k) : pm k a e m = a ^ e % m := by
  induction k generalizing a e with
  | zero => simp only [pow_zero, Nat.lt_one_iff] at h; simp [pm, h]
  | succ k ih =>
    have h2 : e / 2 < 2 ^ k := by rw [pow_succ] at h; omega
    have hh : (a * a % m) ^ (e / 2) % m = a ^ (2 * (e / 2)) % m := by
      rw [← Nat.pow_mod, pow_mul, pow_two]
    rw [pm, ih _ _ h2, hh]
    split
    · have he : e = 2 * (e / 2) + 1 := by omega
      conv_rhs => rw [he, pow_succ']
      rw [Nat.mul_mod, Nat.mod_mod, ← Nat.mul_mod]
    · have he : e = 2 * (e / 2) := by omega
      conv_rhs => rw [he]

theorem pratt (n a : ℕ) (fs : List ℕ) (hn : 1 < n) (hprod : fs.prod = n - 1)
    (hp : ∀ f ∈ fs, f.Prime) (hb : n < 2 ^ 256)
    (h1 : pm 256 a (n - 1) n = 1)
    (h2 : ∀ f ∈ fs, pm 256 a ((n - 1) / f) n ≠ 1) : n.Prime := by
  have cast : ∀ e < n, (a : ZMod n) ^ e = 1 ↔ pm 256 a e n = 1 := by
    intro e he
    rw [pm_eq _ _ _ _ (he.trans hb)]
    have h := ZMod.natCast_eq_natCast_iff (a ^ e) 1 n
    rw [Nat.cast_pow, Nat.cast_one] at h
    rw [h, Nat.ModEq, Nat.mod_eq_of_lt hn]
  refine lucas_primality n (a : ZMod n) ((cast _ (by omega)).2 h1) ?_
  intro q hq hd
  rw [← hprod] at hd
  obtain ⟨f, hf, hqf⟩ := (Prime.dvd_prod_iff hq.prime).1 hd
  have : q = f := (Nat.prime_dvd_prime_iff_eq hq (hp f hf)).1 hqf
  rw [this, Ne, cast _ (lt_of_le_of_lt (Nat.div_le_self _ _) (by omega))]
  exact h2 f hf
''']
for n in order:
    a,f=seen[n]
    fs=[q for q in f for _ in range(f[q])]
    out.append(f'''theorem prime_{n} : Nat.Prime {n} := by
  refine pratt {n} {a} {fs} (by norm_num) (by norm_num) ?_ (by norm_num) (by decide +kernel) ?_
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨{', '.join(f'prime_{q}' if q>=LIM else 'by norm_num' for q in fs)}⟩
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨{', '.join('by decide +kernel' for q in fs)}⟩
''')
out.append(f'''/-- `axiom_fermat` of contracts/p256.rs: for 0 < x < p, md(pow(x, p - 1)) = 1. -/
theorem fermat (p : ℕ) (hp : p = 2 ^ 256 - 2 ^ 224 + 2 ^ 192 + 2 ^ 96 - 1) (x : ℤ)
    (h0 : 0 < x) (h1 : x < p) : x ^ (p - 1) % (p : ℤ) = 1 := by
  have hprime : p.Prime := by
    have : p = {p} := by rw [hp]; norm_num
    rw [this]; exact prime_{p}
  have := Fact.mk hprime
  have hx : (x : ZMod p) ≠ 0 := by
    intro h
    have := Int.le_of_dvd h0 ((ZMod.intCast_zmod_eq_zero_iff_dvd x p).1 h)
    omega
  have h := ZMod.pow_card_sub_one_eq_one hx
  have h2 : ((x ^ (p - 1) : ℤ) : ZMod p) = ((1 : ℤ) : ZMod p) := by push_cast; exact h
  have h3 := (ZMod.intCast_eq_intCast_iff _ _ _).1 h2
  have h4 : (1 : ℤ) % (p : ℤ) = 1 := Int.emod_eq_of_lt (by norm_num) (by have := hprime.one_lt; omega)
  rw [Int.ModEq, h4] at h3
  exact h3

#print axioms fermat
''')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts', 'fermat.lean'), 'w').write('\n'.join(out))
