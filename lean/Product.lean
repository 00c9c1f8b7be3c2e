import Mathlib

/-!
Shares of a product. PrivMult gives party i the share a_i b_i + Σ_j (a_j b_i - s_ij) + Σ_j (a_i b_j - t_ji) for the other
parties j, where s_ij = a_j b_i - t_ij is what it sends to j and t_ij its mask for j.
-/

variable {R : Type*} [CommRing R]

/-- The shares of all parties add up to the product of the sums of the factors. -/
theorem product_shares {ι : Type*} [DecidableEq ι] [Fintype ι] (a b c : ι → R) (s t : ι → ι → R)
    (sent : ∀ i j, s i j = a j * b i - t i j)
    (share : ∀ i, c i = a i * b i + ∑ j ∈ Finset.univ.erase i, (a j * b i + a i * b j - s i j - t j i)) :
    ∑ i, c i = (∑ i, a i) * ∑ i, b i := by
  have h : ∀ i, c i = a i * ∑ j, b j + ((∑ j, t i j) - ∑ j, t j i) := fun i => by
    rw [share i, ← Finset.add_sum_erase _ b (Finset.mem_univ i), ← Finset.sum_sub_distrib,
      ← Finset.add_sum_erase _ (fun j => t i j - t j i) (Finset.mem_univ i), sub_self, zero_add, mul_add, Finset.mul_sum, add_assoc,
      ← Finset.sum_add_distrib]
    congr 1
    refine Finset.sum_congr rfl fun j _ => ?_
    rw [sent i j]
    ring
  rw [Finset.sum_congr rfl fun i _ => h i, Finset.sum_add_distrib, ← Finset.sum_mul, Finset.sum_sub_distrib,
    Finset.sum_comm (f := fun i j => t j i), sub_self, add_zero]
