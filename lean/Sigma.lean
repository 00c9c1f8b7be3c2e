import Mathlib

/-!
What the two verification equations mean, over the field of scalars (integers modulo the prime group order p).
Commitments are pairs of logarithms: an opening (v, r) for the base with logarithm h is (r, h*r + v).
-/

variable {p : ℕ} [Fact p.Prime]

/-- Two accepted proofs of knowledge with one first message and different challenges determine an opening. -/
theorem know_extract (h c₁ c₂ x₁ x₂ e e' z₁ z₂ z₁' z₂' : ZMod p) (he : e ≠ e')
    (a1 : z₁ = x₁ + e * c₁) (a2 : h * z₁ + z₂ = x₂ + e * c₂)
    (b1 : z₁' = x₁ + e' * c₁) (b2 : h * z₁' + z₂' = x₂ + e' * c₂) :
    c₁ = (z₁ - z₁') / (e - e') ∧ c₂ = h * ((z₁ - z₁') / (e - e')) + (z₂ - z₂') / (e - e') := by
  have hd : e - e' ≠ 0 := sub_ne_zero.mpr he
  constructor
  · field_simp
    subst a1 b1
    ring
  · field_simp
    have : z₂ - z₂' = (x₂ + e * c₂ - h * z₁) - (x₂ + e' * c₂ - h * z₁') := by
      rw [← a2, ← b2]; ring
    rw [this]; ring

/-- Two accepted refresh proofs with one first message and different challenges show that the second commitment is the
first one composed with a commitment to zero. -/
theorem refresh_extract (h a₁ a₂ b₁ b₂ x₁ x₂ e e' z z' : ZMod p) (he : e ≠ e')
    (p1 : z + e * a₁ = x₁ + e * b₁) (p2 : h * z + e * a₂ = x₂ + e * b₂)
    (q1 : z' + e' * a₁ = x₁ + e' * b₁) (q2 : h * z' + e' * a₂ = x₂ + e' * b₂) :
    b₁ = a₁ + (z - z') / (e - e') ∧ b₂ = a₂ + h * ((z - z') / (e - e')) := by
  have hd : e - e' ≠ 0 := sub_ne_zero.mpr he
  have h1 : (e - e') * (b₁ - a₁) = z - z' := by linear_combination -p1 + q1
  have h2 : (e - e') * (b₂ - a₂) = h * (z - z') := by linear_combination -p2 + q2
  constructor
  · field_simp
    linear_combination h1
  · field_simp
    linear_combination h2
