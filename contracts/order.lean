/-
The group of the curve has prime order N (the `order` of contracts/p256.rs), so no multiple d P of a point of the
curve with 1 <= d < N is the point at infinity: `axiom_order` of contracts/p256.rs.
-/
import Mathlib.GroupTheory.OrderOfElement
import Mathlib.GroupTheory.Perm.Cycle.Type
import Mathlib.Tactic.Ring

namespace Husk

abbrev N : ℕ := 115792089210356248762697446949407573529996955224135760342422259061068512044369

theorem N_prime : N.Prime :=
  prime_115792089210356248762697446949407573529996955224135760342422259061068512044369

open WeierstrassCurve.Affine

/-! ## N G = 0, by evaluation -/

/-- `inv` by repeated squaring -/
def finv (x : ℤ) : ℤ := (pm 256 x.toNat (P - 2) P : ℕ)

theorem finv_eq (x : ℤ) : finv (md x) = inv (md x) := by
  have h := md_range x
  rw [finv, inv, pm_eq _ _ _ _ (by decide +kernel)]
  have e : (p256 - 2).toNat = P - 2 := by decide +kernel
  rw [e, md]
  have h2 : (((md x).toNat : ℕ) : ℤ) = md x := Int.toNat_of_nonneg h.1
  rw [md] at h2
  rw [Int.natCast_mod, Nat.cast_pow, h2, md, p256_eq]

def fdbl (p : Aff) : Aff :=
  match p with
  | none => none
  | some (x, y) => if md y = 0 then none else some (on_line (md ((3 * (x * x) - 3) * finv (md (2 * y)))) x y x)

def fadd (p q : Aff) : Aff :=
  match p, q with
  | none, _ => q
  | _, none => p
  | some (x, y), some (u, v) =>
    if md x = md u then (if md y = md v then fdbl p else none)
    else some (on_line (md ((y - v) * finv (md (x - u)))) x y u)

def fmul : ℕ → ℕ → Aff → Aff
  | 0, _, _ => none
  | k + 1, n, p =>
    if n % 2 = 1 then fadd (fdbl (fmul k (n / 2) p)) p else fdbl (fmul k (n / 2) p)

theorem fdbl_eq (p : Aff) : fdbl p = gdbl p := by
  match p with
  | none => rfl
  | some (x, y) => simp only [fdbl, gdbl, slope_t, finv_eq]

theorem fadd_eq (p q : Aff) : fadd p q = gadd p q := by
  match p, q with
  | none, _ => rfl
  | some _, none => rfl
  | some (x, y), some (u, v) =>
    by_cases hx : md x = md u <;> by_cases hy : md y = md v <;>
      simp [fadd, gadd, slope, finv_eq, cg, fdbl_eq, hx, hy]

theorem fmul_eq (k n : ℕ) (p : Aff) (h : n < 2 ^ k) : fmul k n p = gmul n p := by
  induction k generalizing n with
  | zero =>
    have : n = 0 := by simpa using h
    subst this
    rw [gmul]; rfl
  | succ k ih =>
    have h2 : n / 2 < 2 ^ k := by rw [pow_succ] at h; omega
    rw [fmul, ih _ h2]
    conv_rhs => rw [gmul]
    by_cases h0 : n = 0
    · subst h0
      have : gmul 0 p = none := by rw [gmul]; rfl
      simp [this, fdbl]
    · simp only [h0, if_false, fdbl_eq, fadd_eq]

def base_x : ℤ := 0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296
def base_y : ℤ := 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5

theorem order_base : gmul N (some (base_x, base_y)) = none := by
  rw [← fmul_eq 256 N _ (by decide +kernel)]
  decide +kernel

theorem base_on_curve : curve base_x base_y := by
  have : md (base_y * base_y) = md (base_x * base_x * base_x - 3 * base_x + curve_b) := by decide +kernel
  exact this

/-! ## x^3 - 3 x + b has no root: X^p - X is a unit modulo it -/

/-- a r^2 + b r + c, modulo r^3 = 3 r - b -/
structure T where
  a : ℤ
  b : ℤ
  c : ℤ
deriving DecidableEq

def T.at (t : T) (r : F) : F := (t.a : F) * r ^ 2 + (t.b : F) * r + (t.c : F)

def T.mul (s t : T) : T :=
  ⟨md (s.a * t.c + s.b * t.b + s.c * t.a + 3 * (s.a * t.a)),
   md (s.b * t.c + s.c * t.b - curve_b * (s.a * t.a) + 3 * (s.a * t.b + s.b * t.a)),
   md (s.c * t.c - curve_b * (s.a * t.b + s.b * t.a))⟩

theorem T.mul_at (s t : T) (r : F) (hr : r ^ 3 - 3 * r + (curve_b : F) = 0) : (s.mul t).at r = s.at r * t.at r := by
  simp only [T.mul, T.at, md_cast]
  push_cast
  linear_combination (-((s.a : F) * t.a * r + (s.a : F) * t.b + (s.b : F) * t.a)) * hr

def T.pow : ℕ → T → ℕ → T
  | 0, _, _ => ⟨0, 0, 1⟩
  | k + 1, t, e => if e % 2 = 1 then t.mul (T.pow k (t.mul t) (e / 2)) else T.pow k (t.mul t) (e / 2)

theorem T.pow_at (k : ℕ) (t : T) (e : ℕ) (h : e < 2 ^ k) (r : F) (hr : r ^ 3 - 3 * r + (curve_b : F) = 0) :
    (T.pow k t e).at r = (t.at r) ^ e := by
  induction k generalizing t e with
  | zero =>
    have : e = 0 := by simpa using h
    subst this
    simp [T.pow, T.at]
  | succ k ih =>
    have h2 : e / 2 < 2 ^ k := by rw [pow_succ] at h; omega
    have hh : (T.pow k (t.mul t) (e / 2)).at r = t.at r ^ (2 * (e / 2)) := by
      rw [ih _ _ h2, T.mul_at _ _ _ hr, pow_mul, pow_two]
    rw [T.pow]
    split
    · have he : e = 2 * (e / 2) + 1 := by omega
      conv_rhs => rw [he, pow_succ']
      rw [T.mul_at _ _ _ hr, hh]
    · have he : e = 2 * (e / 2) := by omega
      conv_rhs => rw [he]
      rw [hh]

/-- the inverse of X^p - X modulo the cubic -/
def unit_of : T :=
  ⟨34768139465301476436978405170953382516735956999154666452188405812258086013549,
   74462945259064871768191128030512052509059297803194871526163573358218695456204,
   76626890310466861426869089647039036757962535851890885406097439786770458211455⟩

theorem no_root (r : F) : r ^ 3 - 3 * r + (curve_b : F) ≠ 0 := by
  intro hr
  have hX : (⟨0, 1, 0⟩ : T).at r = r := by simp [T.at]
  have hp : (T.pow 256 ⟨0, 1, 0⟩ P).at r = r := by
    rw [T.pow_at 256 _ P (by decide +kernel) r hr, hX, ZMod.pow_card]
  have he : ∃ t : T, T.pow 256 ⟨0, 1, 0⟩ P = t ∧ unit_of.mul ⟨t.a, t.b - 1, t.c⟩ = ⟨0, 0, 1⟩ :=
    ⟨_, rfl, by decide +kernel⟩
  obtain ⟨t, ht, hu⟩ := he
  rw [ht] at hp
  have h0 : (⟨t.a, t.b - 1, t.c⟩ : T).at r = 0 := by
    have : (⟨t.a, t.b - 1, t.c⟩ : T).at r = t.at r - r := by simp only [T.at]; push_cast; ring
    rw [this, hp, sub_self]
  have h1 := T.mul_at unit_of ⟨t.a, t.b - 1, t.c⟩ r hr
  rw [hu, h0, mul_zero] at h1
  simp [T.at] at h1

/-! ## the order of the group -/

/-- a point is its x coordinate and one bit, or infinity -/
def code (p : Pt) : Option (F × Bool) :=
  match p with
  | .zero => none
  | .some x y _ => some (x, decide (y.val ≤ (-y).val))

theorem code_injective : Function.Injective code := by
  intro p q h
  match p, q, h with
  | .zero, .zero, _ => rfl
  | .zero, .some _ _ _, h => simp [code] at h
  | .some _ _ _, .zero, h => simp [code] at h
  | .some x y hp, .some u v hq, h =>
    simp only [code, Option.some.injEq, Prod.mk.injEq, decide_eq_decide] at h
    obtain ⟨hx, hb⟩ := h
    subst hx
    have : y = v ∨ y = -v := by
      rcases Y_eq_of_X_eq hp.1 hq.1 rfl with h | h
      · exact Or.inl h
      · right; rw [h]; simp [negY, W]
    have hy : y = v := by
      rcases this with h | h
      · exact h
      · rw [h, neg_neg] at hb
        have : (-v).val = v.val := by
          rcases le_total (-v).val v.val with g | g
          · exact le_antisymm g (hb.1 g)
          · exact le_antisymm (hb.2 g) g
        rw [h]; exact ZMod.val_injective P this
    subst hy
    rfl

instance : Finite Pt := Finite.of_injective code code_injective

theorem card_le : Nat.card Pt ≤ 2 * P + 1 := by
  have h := Nat.card_le_card_of_injective code code_injective
  have e : Nat.card (Option (F × Bool)) = 2 * P + 1 := by
    rw [Finite.card_option, Nat.card_prod, Nat.card_eq_fintype_card (α := Bool), Fintype.card_bool,
      Nat.card_eq_fintype_card, ZMod.card, mul_comm]
  rwa [e] at h

theorem two_torsion (p : Pt) (h : p + p = 0) : p = 0 := by
  match p, h with
  | .zero, _ => rfl
  | .some x y hp, h =>
    exfalso
    have hy : y = W.toAffine.negY x y := by
      by_contra hne
      rw [Point.add_self_of_Y_ne hne] at h
      exact Point.some_ne_zero _ h
    have y0 : y = 0 := by
      have : (2 : F) * y = 0 := by
        simp only [negY, W] at hy
        linear_combination hy
      exact (mul_eq_zero.1 this).resolve_left two_ne
    have he := (equation_iff (W := W.toAffine) x y).1 hp.1
    simp only [W, y0] at he
    exact no_root x (by linear_combination -he)

theorem rep_none (p : Pt) (h : Rep p none) : p = 0 := by
  match p, h with
  | .zero, _ => rfl

theorem mul_zero_of (n : ℕ) (q : Aff) (hn : gmul n q = none) (p : Pt) (hp : Rep p q) : n • p = 0 := by
  have h := rep_mul p q hp n
  rw [hn] at h
  exact rep_none _ h

theorem card_eq : Nat.card Pt = N := by
  obtain ⟨g, hg⟩ := point_of base_x base_y base_on_curve
  have hN : N • g = 0 := mul_zero_of N _ order_base g hg
  have g0 : g ≠ 0 := by
    intro h
    rw [h] at hg
    exact hg
  have : Fact N.Prime := ⟨N_prime⟩
  have ho : addOrderOf g = N := addOrderOf_eq_prime hN g0
  have hd : N ∣ Nat.card Pt := ho ▸ addOrderOf_dvd_natCard g
  obtain ⟨k, hk⟩ := hd
  have hle := card_le
  have hpos : 0 < Nat.card Pt := Nat.card_pos
  rw [hk] at hle hpos
  have k0 : k ≠ 0 := by rintro rfl; simp at hpos
  have k3 : k < 3 := by
    by_contra h
    have h3 : N * 3 ≤ N * k := Nat.mul_le_mul_left N (by omega)
    have h4 : 2 * P + 1 < N * 3 := by decide +kernel
    omega
  have k2 : k ≠ 2 := by
    rintro rfl
    have h2 : 2 ∣ Nat.card Pt := ⟨N, by rw [hk]; ring⟩
    have : Fact (Nat.Prime 2) := ⟨Nat.prime_two⟩
    obtain ⟨q, hq⟩ := exists_prime_addOrderOf_dvd_card' 2 h2
    have hz : q + q = 0 := by
      have := addOrderOf_nsmul_eq_zero q
      rwa [hq, two_nsmul] at this
    have := two_torsion q hz
    rw [this, addOrderOf_zero] at hq
    omega
  have : k = 1 := by omega
  rw [hk, this, mul_one]

/-- `axiom_order` of contracts/p256.rs -/
theorem order (x y : ℤ) (h : curve x y) (d : ℕ) (h0 : 0 < d) (h1 : d < N) : gmul d (some (x, y)) ≠ none := by
  intro hn
  obtain ⟨p, hp⟩ := point_of x y h
  have hz : d • p = 0 := mul_zero_of d _ hn p hp
  have p0 : p ≠ 0 := by
    intro h
    rw [h] at hp
    exact hp
  have hd : addOrderOf p ∣ N := card_eq ▸ addOrderOf_dvd_natCard p
  rcases (Nat.dvd_prime N_prime).1 hd with h | h
  · exact p0 (AddMonoid.addOrderOf_eq_one_iff.1 h)
  · have := addOrderOf_dvd_of_nsmul_eq_zero hz
    rw [h] at this
    exact absurd (Nat.le_of_dvd h0 this) (by omega)

end Husk

#print axioms Husk.order
