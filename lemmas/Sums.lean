import Mathlib

/-- The terms of output `k` of a linear convolution can be enumerated by the index into the one operand or by the index into the
other.  `g i j` is the product of signal element `i` and patch element `j` (or a part of it, for complex numbers). -/
theorem conv_flip (g : ℕ → ℕ → ℝ) (n l k : ℕ) :
    ∑ m ∈ Finset.Ico (k + 1 - l) (min n (k + 1)), g m (k - m) =
    ∑ m ∈ Finset.Ico (k + 1 - n) (min l (k + 1)), g (k - m) m := by
  refine Finset.sum_nbij' (fun m => k - m) (fun m => k - m) ?_ ?_ ?_ ?_ ?_
  · intro m hm; simp only [Finset.mem_Ico] at *; omega
  · intro m hm; simp only [Finset.mem_Ico] at *; omega
  · intro m hm; simp only [Finset.mem_Ico] at *; omega
  · intro m hm; simp only [Finset.mem_Ico] at *; omega
  · intro m hm
    simp only [Finset.mem_Ico] at hm
    have h : k - (k - m) = m := by omega
    simp only [h]

/-- The recursion by which the contracts state such a sum: it starts at zero and adds one term per step. -/
theorem prefix_sum (f : ℕ → ℝ) (F : ℕ → ℝ) (lo hi : ℕ) (h0 : F lo = 0) (hs : ∀ t, F (t + 1) = F t + f t) (h : lo ≤ hi) :
    F hi = ∑ m ∈ Finset.Ico lo hi, f m := by
  induction hi, h using Nat.le_induction with
  | base => simp [h0]
  | succ t ht ih => rw [Finset.sum_Ico_succ_top ht, hs, ih]
