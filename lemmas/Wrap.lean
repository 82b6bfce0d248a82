import Mathlib

/-- A counter that starts at zero and wraps to zero on reaching `n` counts modulo `n`. -/
theorem wrap_mod (n : ℕ) (hn : 0 < n) (w : ℕ → ℕ) (h0 : w 0 = 0)
    (hs : ∀ t, w (t + 1) = if w t + 1 = n then 0 else w t + 1) (t : ℕ) : w t = t % n := by
  induction t with
  | zero => simp [h0]
  | succ t ih =>
    rw [hs, ih]
    have hlt := Nat.mod_lt t hn
    split_ifs with h
    · rw [Nat.add_mod]
      rcases Nat.lt_or_ge 1 n with h1 | h1
      · rw [Nat.mod_eq_of_lt h1, h, Nat.mod_self]
      · have : n = 1 := by omega
        subst this; simp [Nat.mod_one]
    · have h2 : t % n + 1 < n := by omega
      rw [Nat.add_mod, Nat.mod_eq_of_lt (show 1 < n by omega), Nat.mod_eq_of_lt h2]
