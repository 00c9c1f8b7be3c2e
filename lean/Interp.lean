import Mathlib

/-!
The weights that lagrangeCoef returns recover a polynomial's value at zero. The scalars are the integers modulo the prime
group order p; the evaluation point of the party with number `a i` is `a i + 1`.
-/

open Polynomial

variable {p : ℕ} [Fact p.Prime]

/-- The product of the differences of different party numbers below the order is invertible. -/
theorem differences_unit {ι : Type*} [DecidableEq ι] (s : Finset ι) (a : ι → ZMod p) (inj : Set.InjOn a s) (k : ι) (hk : k ∈ s) :
    ∏ i ∈ s.erase k, (a k - a i) ≠ 0 := by
  refine Finset.prod_ne_zero_iff.mpr fun i hi h => ?_
  have hs := Finset.mem_of_mem_erase hi
  exact Finset.ne_of_mem_erase hi (inj hs hk (sub_eq_zero.mp h).symm)

/-- Weights w k with w k * ∏ (a k - a i) = ∏ -(a i + 1) sum the values of a polynomial of degree less than the number of
parties up to its value at zero. -/
theorem weights_interpolate {ι : Type*} [DecidableEq ι] (s : Finset ι) (a : ι → ZMod p) (inj : Set.InjOn a s)
    (w : ι → ZMod p) (hw : ∀ k ∈ s, w k * ∏ i ∈ s.erase k, (a k - a i) = ∏ i ∈ s.erase k, -(a i + 1))
    (f : (ZMod p)[X]) (deg : f.degree < s.card) :
    ∑ k ∈ s, w k * f.eval (a k + 1) = f.eval 0 := by
  have inj' : Set.InjOn (fun i => a i + 1) s := fun i hi k hk h => inj hi hk (add_right_cancel h)
  conv_rhs => rw [Lagrange.eq_interpolate inj' deg, Lagrange.interpolate_apply, eval_finsetSum]
  refine Finset.sum_congr rfl fun k hk => ?_
  rw [eval_mul, eval_C, mul_comm]
  congr 1
  have hd := differences_unit s a inj k hk
  have : w k = (∏ i ∈ s.erase k, -(a i + 1)) * (∏ i ∈ s.erase k, (a k - a i))⁻¹ := by
    rw [← hw k hk, mul_assoc, mul_inv_cancel₀ hd, mul_one]
  rw [this, Lagrange.basis, eval_prod, ← Finset.prod_inv_distrib, ← Finset.prod_mul_distrib]
  refine Finset.prod_congr rfl fun i _ => ?_
  simp only [Lagrange.basisDivisor, eval_mul, eval_C, eval_sub, eval_X]
  have : a k + 1 - (a i + 1) = a k - a i := by ring
  rw [this]
  ring
