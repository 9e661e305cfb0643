/-
`gmul n P` of contracts/p256.rs is n P in the group of the curve: Mathlib's group law on the points of a
Weierstrass curve, whose associativity is proved there.  The definitions md, inv, slope_t, slope, on_line, gdbl,
gadd, gmul, curve are those of contracts/p256.rs, written again in Lean.
-/
import Mathlib.AlgebraicGeometry.EllipticCurve.Affine.Point
import Mathlib.Tactic.FieldSimp
import Mathlib.Tactic.LinearCombination

namespace Husk

abbrev P : ℕ := 115792089210356248762697446949407573530086143415290314195533631308867097853951

theorem P_prime : P.Prime :=
  prime_115792089210356248762697446949407573530086143415290314195533631308867097853951

instance : Fact P.Prime := ⟨P_prime⟩

abbrev F := ZMod P

/-! the definitions of contracts/p256.rs -/
def p256 : ℤ := 2 ^ 256 - 2 ^ 224 + 2 ^ 192 + 2 ^ 96 - 1
def md (x : ℤ) : ℤ := x % p256
def cg (a b : ℤ) : Prop := md a = md b
instance (a b : ℤ) : Decidable (cg a b) := inferInstanceAs (Decidable (md a = md b))
def inv (x : ℤ) : ℤ := md (x ^ (p256 - 2).toNat)
abbrev Aff := Option (ℤ × ℤ)
def slope_t (x y : ℤ) : ℤ := md ((3 * (x * x) - 3) * inv (md (2 * y)))
def slope (x y u v : ℤ) : ℤ := md ((y - v) * inv (md (x - u)))
def on_line (l x y u : ℤ) : ℤ × ℤ := (md (l * l - x - u), md (l * (x - md (l * l - x - u)) - y))
def gdbl (p : Aff) : Aff :=
  match p with
  | none => none
  | some (x, y) => if md y = 0 then none else some (on_line (slope_t x y) x y x)
def gadd (p q : Aff) : Aff :=
  match p, q with
  | none, _ => q
  | _, none => p
  | some (x, y), some (u, v) =>
    if cg x u then (if cg y v then gdbl p else none) else some (on_line (slope x y u v) x y u)
def gmul (n : ℕ) (p : Aff) : Aff :=
  if n = 0 then none
  else
    let h := gdbl (gmul (n / 2) p)
    if n % 2 = 1 then gadd h p else h
termination_by n
decreasing_by omega
def curve_b : ℤ := 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b
def curve (x y : ℤ) : Prop := cg (y * y) (x * x * x - 3 * x + curve_b)

/-! residues -/
theorem p256_eq : p256 = (P : ℤ) := by norm_num [p256, P]

theorem md_cast (x : ℤ) : ((md x : ℤ) : F) = (x : F) := by
  rw [md, p256_eq]; exact (ZMod.intCast_mod x P)

theorem md_eq_iff (a b : ℤ) : md a = md b ↔ (a : F) = (b : F) := by
  rw [md, md, p256_eq]; exact (ZMod.intCast_eq_intCast_iff' a b P).symm

theorem md_zero_iff (a : ℤ) : md a = 0 ↔ (a : F) = 0 := by
  have h := md_eq_iff a 0
  have h0 : md 0 = 0 := by simp [md]
  rw [h0] at h; simpa using h

theorem md_range (a : ℤ) : 0 ≤ md a ∧ md a < p256 := by
  have : (0 : ℤ) < p256 := by norm_num [p256]
  exact ⟨Int.emod_nonneg _ (ne_of_gt this), Int.emod_lt_of_pos _ this⟩

theorem inv_cast (x : ℤ) : ((inv (md x) : ℤ) : F) = (x : F)⁻¹ := by
  rw [inv, md_cast]
  push_cast
  rw [md_cast]
  have e : (p256 - 2).toNat = P - 2 := by decide +kernel
  rw [e]
  by_cases h : (x : F) = 0
  · rw [h]; simp
  · have hf := ZMod.pow_card_sub_one_eq_one h
    have : (x : F) ^ (P - 1) = x ^ (P - 2) * x := by rw [← pow_succ, show P - 2 + 1 = P - 1 by decide +kernel]
    rw [this] at hf
    exact eq_inv_of_mul_eq_one_left hf

/-! the curve -/
def W : WeierstrassCurve F := ⟨0, 0, 0, -3, (curve_b : F)⟩

theorem delta_ne : W.Δ ≠ 0 := by
  have : W.Δ = ((-16 * (4 * (-3) ^ 3 + 27 * curve_b ^ 2) : ℤ) : F) := by
    simp only [WeierstrassCurve.Δ, WeierstrassCurve.b₂, WeierstrassCurve.b₄, WeierstrassCurve.b₆, WeierstrassCurve.b₈, W]
    push_cast; ring
  rw [this, Ne, ← md_zero_iff]
  decide +kernel

abbrev Pt := W.toAffine.Point

open WeierstrassCurve.Affine

/-- the curve equation of the contracts is that of W, whose points are all nonsingular -/
theorem curve_iff (x y : ℤ) : curve x y ↔ W.toAffine.Nonsingular (x : F) (y : F) := by
  rw [← equation_iff_nonsingular_of_Δ_ne_zero (W := W.toAffine) delta_ne, equation_iff, curve, cg, md_eq_iff]
  simp only [W]
  push_cast
  constructor <;> intro h <;> linear_combination h

/-- q stands for the point p -/
def Rep (p : Pt) (q : Aff) : Prop :=
  match p, q with
  | .zero, none => True
  | .some x y _, some (u, v) => (u : F) = x ∧ (v : F) = y
  | _, _ => False

theorem line_cast (l x y u : ℤ) (L : F) (h : (l : F) = L) :
    (((on_line l x y u).1 : ℤ) : F) = W.toAffine.addX x u L ∧
    (((on_line l x y u).2 : ℤ) : F) = W.toAffine.addY x u y L := by
  simp only [on_line, md_cast, addX, addY, negAddY, negY, W]
  push_cast
  simp only [md_cast]
  push_cast
  rw [h]
  constructor <;> ring

theorem two_ne : (2 : F) ≠ 0 := by
  have h := (md_zero_iff 2).not.1 (by decide)
  simpa using h

theorem rep_dbl (p : Pt) (q : Aff) (h : Rep p q) : Rep (p + p) (gdbl q) := by
  match p, q, h with
  | .zero, none, _ => exact trivial
  | .some x y hp, some (u, v), ⟨hu, hv⟩ =>
    subst hu hv
    by_cases hy : (v : F) = 0
    · have e : (v : F) = W.toAffine.negY u v := by simp [negY, W, hy]
      rw [Point.add_self_of_Y_eq e]
      simp only [gdbl, (md_zero_iff v).2 hy, if_true]
      exact trivial
    · have e : (v : F) ≠ W.toAffine.negY u v := by
        simp only [negY, W]
        intro h2
        have : (2 : F) * v = 0 := by linear_combination h2
        exact hy ((mul_eq_zero.1 this).resolve_left two_ne)
      rw [Point.add_self_of_Y_ne e]
      simp only [gdbl, (md_zero_iff v).not.2 hy, if_false]
      apply line_cast
      rw [slope_of_Y_ne rfl e, slope_t, md_cast]
      push_cast
      rw [inv_cast, div_eq_mul_inv]
      have e1 : (3 * ((u : F) * u) - 3) = 3 * (u : F) ^ 2 + 2 * W.a₂ * u + W.a₄ - W.a₁ * v := by simp only [W]; ring
      have e2 : (v : F) - W.toAffine.negY u v = 2 * v := by simp only [negY, W]; ring
      rw [e2, ← e1]
      push_cast
      rfl

theorem rep_add (p p' : Pt) (q q' : Aff) (h : Rep p q) (h' : Rep p' q') : Rep (p + p') (gadd q q') := by
  match p, q, h, p', q', h' with
  | .zero, none, _, p', q', h' =>
    have : (Point.zero : Pt) + p' = p' := zero_add p'
    rw [this]; simpa [gadd] using h'
  | .some x y hp, some (u, v), h, .zero, none, _ =>
    have : Point.some x y hp + (Point.zero : Pt) = Point.some x y hp := add_zero _
    rw [this]; simpa [gadd] using h
  | .some x y hp, some (u, v), ⟨hu, hv⟩, .some x' y' hp', some (u', v'), ⟨hu', hv'⟩ =>
    subst hu hv hu' hv'
    by_cases hx : (u : F) = (u' : F)
    · have cx : cg u u' := (md_eq_iff _ _).2 hx
      by_cases hy : (v : F) = (v' : F)
      · have cy : cg v v' := (md_eq_iff _ _).2 hy
        have e : Point.some (u' : F) (v' : F) hp' = Point.some (u : F) (v : F) hp := by simp [hx, hy]
        rw [e]
        simp only [gadd, cx, cy, if_true]
        exact rep_dbl _ _ ⟨rfl, rfl⟩
      · have cy : ¬ cg v v' := (md_eq_iff _ _).not.2 hy
        have e : (v : F) = W.toAffine.negY u' v' := by
          rcases Y_eq_of_X_eq hp.1 hp'.1 hx with h | h
          · exact absurd h hy
          · exact h
        rw [Point.add_of_Y_eq hx e]
        simp only [gadd, cx, cy, if_true, if_false]
        exact trivial
    · have cx : ¬ cg u u' := (md_eq_iff _ _).not.2 hx
      rw [Point.add_of_X_ne hx]
      simp only [gadd, cx, if_false]
      apply line_cast
      rw [slope_of_X_ne hx, slope, md_cast]
      push_cast
      rw [inv_cast, div_eq_mul_inv]
      push_cast
      rfl

theorem rep_mul (p : Pt) (q : Aff) (h : Rep p q) (n : ℕ) : Rep (n • p) (gmul n q) := by
  induction n using Nat.strong_induction_on with
  | _ n ih =>
    rw [gmul]
    by_cases h0 : n = 0
    · simp only [h0, if_true]; exact trivial
    · simp only [h0, if_false]
      have hd := rep_dbl _ _ (ih (n / 2) (by omega))
      rw [← add_smul] at hd
      by_cases h1 : n % 2 = 1
      · simp only [h1, if_true]
        have ha := rep_add _ _ _ _ hd h
        rw [← succ_nsmul] at ha
        have : n / 2 + n / 2 + 1 = n := by omega
        rwa [this] at ha
      · simp only [h1, if_false]
        have : n / 2 + n / 2 = n := by omega
        rwa [this] at hd

/-! coordinates -/
def canon (p : Aff) : Prop :=
  match p with
  | none => True
  | some (x, y) => 0 ≤ x ∧ x < p256 ∧ 0 ≤ y ∧ y < p256

theorem canon_dbl (q : Aff) : canon (gdbl q) := by
  match q with
  | none => exact trivial
  | some (x, y) =>
    simp only [gdbl]
    split
    · exact trivial
    · exact ⟨(md_range _).1, (md_range _).2, (md_range _).1, (md_range _).2⟩

theorem canon_add (p q : Aff) (hp : canon p) (hq : canon q) : canon (gadd p q) := by
  match p, q with
  | none, _ => simpa [gadd] using hq
  | some _, none => simpa [gadd] using hp
  | some (x, y), some (u, v) =>
    simp only [gadd]
    split
    · split
      · exact canon_dbl _
      · exact trivial
    · exact ⟨(md_range _).1, (md_range _).2, (md_range _).1, (md_range _).2⟩

theorem canon_mul (n : ℕ) (p : Aff) (hp : canon p) : canon (gmul n p) := by
  rw [gmul]
  split
  · exact trivial
  · simp only
    split
    · exact canon_add _ _ (canon_dbl _) hp
    · exact canon_dbl _

/-- two canonical pairs for the same point are the same -/
theorem rep_unique (p : Pt) (q q' : Aff) (h : Rep p q) (h' : Rep p q') (c : canon q) (c' : canon q') : q = q' := by
  have small : ∀ a b : ℤ, 0 ≤ a → a < p256 → 0 ≤ b → b < p256 → (a : F) = (b : F) → a = b := by
    intro a b h1 h2 h3 h4 h5
    have := (md_eq_iff a b).2 h5
    rwa [md, md, Int.emod_eq_of_lt h1 h2, Int.emod_eq_of_lt h3 h4] at this
  match p, q, q', h, h', c, c' with
  | .zero, none, none, _, _, _, _ => rfl
  | .some x y _, some (u, v), some (u', v'), ⟨hu, hv⟩, ⟨hu', hv'⟩, ⟨a, b, c, d⟩, ⟨a', b', c', d'⟩ =>
    rw [small u u' a b a' b' (hu.trans hu'.symm), small v v' c d c' d' (hv.trans hv'.symm)]

/-- a point that the decoder accepts -/
theorem point_of (x y : ℤ) (h : curve x y) : ∃ p : Pt, Rep p (some (x, y)) :=
  ⟨.some (x : F) (y : F) ((curve_iff x y).1 h), rfl, rfl⟩

/-- C07: for a point on the curve, gmul n is the n-fold sum in the group of the curve, in coordinates below p -/
theorem group_law (x y : ℤ) (h : curve x y) :
    ∃ p : Pt, Rep p (some (x, y)) ∧ ∀ n : ℕ, Rep (n • p) (gmul n (some (x, y))) := by
  obtain ⟨p, hp⟩ := point_of x y h
  exact ⟨p, hp, rep_mul p _ hp⟩

/-- C09: both sides of an exchange arrive at the same point -/
theorem exchange (x y : ℤ) (h : curve x y) (c : canon (some (x, y))) (m n : ℕ) :
    gmul m (gmul n (some (x, y))) = gmul n (gmul m (some (x, y))) := by
  obtain ⟨p, hp⟩ := point_of x y h
  have h1 := rep_mul _ _ (rep_mul p _ hp n) m
  have h2 := rep_mul _ _ (rep_mul p _ hp m) n
  have e : n • m • p = m • n • p := by rw [← mul_smul, ← mul_smul, mul_comm]
  rw [e] at h2
  exact rep_unique _ _ _ h1 h2 (canon_mul _ _ (canon_mul _ _ c)) (canon_mul _ _ (canon_mul _ _ c))

end Husk

#print axioms Husk.group_law
#print axioms Husk.exchange
