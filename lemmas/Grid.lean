import Mathlib

/-! Rows of length `c` in a dense matrix of `r` rows: offsets of rows, and ranks of selected positions. -/

theorem row_lt (a b c : ℕ) (h : a < b) : a * c + c ≤ b * c := by
  have : (a + 1) * c ≤ b * c := Nat.mul_le_mul_right c h
  linarith [Nat.succ_mul a c]

theorem row_inside (x r c : ℕ) (h : x < r) : x * c ≤ r * c - c ∧ c ≤ r * c := by
  have := row_lt x r c h
  omega

theorem row_le (x r c : ℕ) (h : x ≤ r) : x * c ≤ r * c := Nat.mul_le_mul_right c h

theorem row_next (x c : ℕ) : (x + 1) * c = x * c + c := Nat.succ_mul x c

theorem size_ge (r c : ℕ) (hr : r ≠ 0) (hc : c ≠ 0) : r ≤ r * c ∧ c ≤ r * c :=
  ⟨Nat.le_mul_of_pos_right r (Nat.pos_of_ne_zero hc), Nat.le_mul_of_pos_left c (Nat.pos_of_ne_zero hr)⟩

/-- the number of selected positions before `p` -/
theorem rank_mono (sel : ℕ → Prop) [DecidablePred sel] (F : ℕ → ℕ) (hs : ∀ t, F (t + 1) = F t + if sel t then 1 else 0)
    (a b : ℕ) (h : a < b) : F a + (if sel a then 1 else 0) ≤ F b := by
  induction b with
  | zero => omega
  | succ b ih =>
    rcases Nat.lt_succ_iff_lt_or_eq.mp h with h' | h'
    · have := ih h'
      have := hs b
      omega
    · subst h'
      have := hs a
      omega

theorem sel_rank_le (sel : ℕ → Prop) [DecidablePred sel] (F : ℕ → ℕ) (h0 : F 0 = 0) (hs : ∀ t, F (t + 1) = F t + if sel t then 1 else 0)
    (p : ℕ) : F p ≤ p := by
  induction p with
  | zero => omega
  | succ p ih =>
    have := hs p
    split at this <;> omega
