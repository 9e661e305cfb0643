/-
The prime of the P-256 field, the order of the base point (a prime as well), and Fermat's
little theorem for the former: the statement that contracts/p256.rs uses as `axiom_fermat`.  Checked by Lean and Mathlib
(no axioms beyond Lean's own three) whenever a check depends on it; written by
tools/gen_fermat.py, which finds the certificate (primitive roots and the
factors of n - 1); nothing of it has to be believed, Lean checks it all.
-/
import Mathlib.NumberTheory.LucasPrimality
import Mathlib.FieldTheory.Finite.Basic
import Mathlib.Tactic.NormNum.Prime
import Mathlib.Algebra.BigOperators.Associated

/-- `a ^ e % m` by repeated squaring, for an `e` of at most `k` bits. -/
def pm : ℕ → ℕ → ℕ → ℕ → ℕ
  | 0, _, _, m => 1 % m
  | k + 1, a, e, m =>
    if e % 2 = 1 then a * pm k (a * a % m) (e / 2) m % m else pm k (a * a % m) (e / 2) m

theorem pm_eq (k a e m : ℕ) (h : e < 2 ^ k) : pm k a e m = a ^ e % m := by
  induction k generalizing a e with
  | zero => simp only [pow_zero, Nat.lt_one_iff] at h; simp [pm, h]
  | succ k ih =>
    have h2 : e / 2 < 2 ^ k := by rw [pow_succ] at h; omega
    have hh : (a * a % m) ^ (e / 2) % m = a ^ (2 * (e / 2)) % m := by
      rw [← Nat.pow_mod, pow_mul, pow_two]
    rw [pm, ih _ _ h2, hh]
    split
    · have he : e = 2 * (e / 2) + 1 := by omega
      conv_rhs => rw [he, pow_succ']
      rw [Nat.mul_mod, Nat.mod_mod, ← Nat.mul_mod]
    · have he : e = 2 * (e / 2) := by omega
      conv_rhs => rw [he]

theorem pratt (n a : ℕ) (fs : List ℕ) (hn : 1 < n) (hprod : fs.prod = n - 1)
    (hp : ∀ f ∈ fs, f.Prime) (hb : n < 2 ^ 256)
    (h1 : pm 256 a (n - 1) n = 1)
    (h2 : ∀ f ∈ fs, pm 256 a ((n - 1) / f) n ≠ 1) : n.Prime := by
  have cast : ∀ e < n, (a : ZMod n) ^ e = 1 ↔ pm 256 a e n = 1 := by
    intro e he
    rw [pm_eq _ _ _ _ (he.trans hb)]
    have h := ZMod.natCast_eq_natCast_iff (a ^ e) 1 n
    rw [Nat.cast_pow, Nat.cast_one] at h
    rw [h, Nat.ModEq, Nat.mod_eq_of_lt hn]
  refine lucas_primality n (a : ZMod n) ((cast _ (by omega)).2 h1) ?_
  intro q hq hd
  rw [← hprod] at hd
  obtain ⟨f, hf, hqf⟩ := (Prime.dvd_prod_iff hq.prime).1 hd
  have : q = f := (Nat.prime_dvd_prime_iff_eq hq (hp f hf)).1 hqf
  rw [this, Ne, cast _ (lt_of_le_of_lt (Nat.div_le_self _ _) (by omega))]
  exact h2 f hf

theorem prime_6700417 : Nat.Prime 6700417 := by
  refine pratt 6700417 5 [2, 2, 2, 2, 2, 2, 2, 3, 17449] (by norm_num) (by norm_num) ?_ (by norm_num) (by decide +kernel) ?_
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num⟩
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel⟩

theorem prime_66417393611 : Nat.Prime 66417393611 := by
  refine pratt 66417393611 6 [2, 5, 53, 173, 197, 3677] (by norm_num) (by norm_num) ?_ (by norm_num) (by decide +kernel) ?_
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num⟩
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel⟩

theorem prime_11290956913871 : Nat.Prime 11290956913871 := by
  refine pratt 11290956913871 13 [2, 5, 17, 66417393611] (by norm_num) (by norm_num) ?_ (by norm_num) (by decide +kernel) ?_
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by norm_num, by norm_num, by norm_num, prime_66417393611⟩
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel⟩

theorem prime_204061199 : Nat.Prime 204061199 := by
  refine pratt 204061199 11 [2, 11, 23, 107, 3769] (by norm_num) (by norm_num) ?_ (by norm_num) (by decide +kernel) ?_
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by norm_num, by norm_num, by norm_num, by norm_num, by norm_num⟩
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel⟩

theorem prime_34282281433 : Nat.Prime 34282281433 := by
  refine pratt 34282281433 17 [2, 2, 2, 3, 7, 204061199] (by norm_num) (by norm_num) ?_ (by norm_num) (by decide +kernel) ?_
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, prime_204061199⟩
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel⟩

theorem prime_46076956964474543 : Nat.Prime 46076956964474543 := by
  refine pratt 46076956964474543 5 [2, 23, 18169, 704251, 78283] (by norm_num) (by norm_num) ?_ (by norm_num) (by decide +kernel) ?_
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by norm_num, by norm_num, by norm_num, by norm_num, by norm_num⟩
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel⟩

theorem prime_774023187263532362759620327192479577272145303 : Nat.Prime 774023187263532362759620327192479577272145303 := by
  refine pratt 774023187263532362759620327192479577272145303 3 [2, 3, 3, 2411, 11290956913871, 34282281433, 46076956964474543] (by norm_num) (by norm_num) ?_ (by norm_num) (by decide +kernel) ?_
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by norm_num, by norm_num, by norm_num, by norm_num, prime_11290956913871, prime_34282281433, prime_46076956964474543⟩
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel⟩

theorem prime_835945042244614951780389953367877943453916927241 : Nat.Prime 835945042244614951780389953367877943453916927241 := by
  refine pratt 835945042244614951780389953367877943453916927241 11 [2, 2, 2, 3, 3, 3, 5, 774023187263532362759620327192479577272145303] (by norm_num) (by norm_num) ?_ (by norm_num) (by decide +kernel) ?_
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, prime_774023187263532362759620327192479577272145303⟩
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel⟩

theorem prime_115792089210356248762697446949407573530086143415290314195533631308867097853951 : Nat.Prime 115792089210356248762697446949407573530086143415290314195533631308867097853951 := by
  refine pratt 115792089210356248762697446949407573530086143415290314195533631308867097853951 6 [2, 3, 5, 5, 17, 257, 641, 1531, 65537, 490463, 6700417, 835945042244614951780389953367877943453916927241] (by norm_num) (by norm_num) ?_ (by norm_num) (by decide +kernel) ?_
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, prime_6700417, prime_835945042244614951780389953367877943453916927241⟩
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel⟩

theorem prime_3969899 : Nat.Prime 3969899 := by
  refine pratt 3969899 2 [2, 19, 104471] (by norm_num) (by norm_num) ?_ (by norm_num) (by decide +kernel) ?_
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by norm_num, by norm_num, by norm_num⟩
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by decide +kernel, by decide +kernel, by decide +kernel⟩

theorem prime_1002328039319 : Nat.Prime 1002328039319 := by
  refine pratt 1002328039319 19 [2, 126241, 3969899] (by norm_num) (by norm_num) ?_ (by norm_num) (by decide +kernel) ?_
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by norm_num, by norm_num, prime_3969899⟩
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by decide +kernel, by decide +kernel, by decide +kernel⟩

theorem prime_9350987 : Nat.Prime 9350987 := by
  refine pratt 9350987 2 [2, 17, 229, 1201] (by norm_num) (by norm_num) ?_ (by norm_num) (by decide +kernel) ?_
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by norm_num, by norm_num, by norm_num, by norm_num⟩
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel⟩

theorem prime_187019741 : Nat.Prime 187019741 := by
  refine pratt 187019741 2 [2, 2, 5, 9350987] (by norm_num) (by norm_num) ?_ (by norm_num) (by decide +kernel) ?_
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by norm_num, by norm_num, by norm_num, prime_9350987⟩
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel⟩

theorem prime_311245691 : Nat.Prime 311245691 := by
  refine pratt 311245691 2 [2, 5, 7, 17, 29, 29, 311] (by norm_num) (by norm_num) ?_ (by norm_num) (by decide +kernel) ?_
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num⟩
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel⟩

theorem prime_622491383 : Nat.Prime 622491383 := by
  refine pratt 622491383 5 [2, 311245691] (by norm_num) (by norm_num) ?_ (by norm_num) (by decide +kernel) ?_
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by norm_num, prime_311245691⟩
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by decide +kernel, by decide +kernel⟩

theorem prime_191039911 : Nat.Prime 191039911 := by
  refine pratt 191039911 3 [2, 3, 5, 41, 155317] (by norm_num) (by norm_num) ?_ (by norm_num) (by decide +kernel) ?_
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by norm_num, by norm_num, by norm_num, by norm_num, by norm_num⟩
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel⟩

theorem prime_208150935158385979 : Nat.Prime 208150935158385979 := by
  refine pratt 208150935158385979 2 [2, 3, 11, 43, 127, 3023, 191039911] (by norm_num) (by norm_num) ?_ (by norm_num) (by decide +kernel) ?_
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, prime_191039911⟩
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel⟩

theorem prime_2624747550333869278416773953 : Nat.Prime 2624747550333869278416773953 := by
  refine pratt 2624747550333869278416773953 7 [2, 2, 2, 2, 2, 2, 3, 3, 1297, 16879, 208150935158385979] (by norm_num) (by norm_num) ?_ (by norm_num) (by decide +kernel) ?_
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, prime_208150935158385979⟩
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel⟩

theorem prime_115792089210356248762697446949407573529996955224135760342422259061068512044369 : Nat.Prime 115792089210356248762697446949407573529996955224135760342422259061068512044369 := by
  refine pratt 115792089210356248762697446949407573529996955224135760342422259061068512044369 7 [2, 2, 2, 2, 3, 71, 131, 373, 3407, 17449, 38189, 1002328039319, 187019741, 622491383, 2624747550333869278416773953] (by norm_num) (by norm_num) ?_ (by norm_num) (by decide +kernel) ?_
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num, prime_1002328039319, prime_187019741, prime_622491383, prime_2624747550333869278416773953⟩
  · simp only [List.forall_mem_cons, List.not_mem_nil, false_imp_iff, implies_true, and_true]
    exact ⟨by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel, by decide +kernel⟩

/-- `axiom_fermat` of contracts/p256.rs: for 0 < x < p, md(pow(x, p - 1)) = 1. -/
theorem fermat (p : ℕ) (hp : p = 2 ^ 256 - 2 ^ 224 + 2 ^ 192 + 2 ^ 96 - 1) (x : ℤ)
    (h0 : 0 < x) (h1 : x < p) : x ^ (p - 1) % (p : ℤ) = 1 := by
  have hprime : p.Prime := by
    have : p = 115792089210356248762697446949407573530086143415290314195533631308867097853951 := by rw [hp]; norm_num
    rw [this]; exact prime_115792089210356248762697446949407573530086143415290314195533631308867097853951
  have := Fact.mk hprime
  have hx : (x : ZMod p) ≠ 0 := by
    intro h
    have := Int.le_of_dvd h0 ((ZMod.intCast_zmod_eq_zero_iff_dvd x p).1 h)
    omega
  have h := ZMod.pow_card_sub_one_eq_one hx
  have h2 : ((x ^ (p - 1) : ℤ) : ZMod p) = ((1 : ℤ) : ZMod p) := by push_cast; exact h
  have h3 := (ZMod.intCast_eq_intCast_iff _ _ _).1 h2
  have h4 : (1 : ℤ) % (p : ℤ) = 1 := Int.emod_eq_of_lt (by norm_num) (by have := hprime.one_lt; omega)
  rw [Int.ModEq, h4] at h3
  exact h3

#print axioms fermat
