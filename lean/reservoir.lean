import Mathlib.Data.Rat.Cast.Defs
import Mathlib.Algebra.Order.Field.Rat
import Mathlib.Tactic.Positivity
import Mathlib.Tactic.Ring
import Mathlib.Tactic.FieldSimp
import Mathlib.Tactic.Linarith

/-!
The transition proved of `Reservoir.Push` by gvc is: the first `S` items are
kept; item number `n > S` is put into slot `r` if `r < S`, where `r` is the
draw, uniform on `[0, n)` and independent of the earlier ones; otherwise
nothing changes. `incl S i n` is the probability that item `i` (counted from
0) is in the sample after `n` pushes.
-/

/-- `n` equally likely draws: item `n` enters for `S` of them, and an item
in the sample is overwritten by exactly one of them. -/
def draws (p : ℕ → Bool) (n : ℕ) : ℕ := ((List.range n).filter p).length

theorem draws_enter (S n : ℕ) (h : S ≤ n) : draws (fun r => r < S) n = S := by
  unfold draws
  induction n with
  | zero => simp at h; simp [h]
  | succ n ih =>
    rw [List.range_succ, List.filter_append, List.length_append]
    by_cases hs : S ≤ n
    · have : ¬ n < S := by omega
      simp [ih hs, this]
    · have hS : S = n + 1 := by omega
      subst hS
      have h1 : (List.range n).filter (fun r => decide (r < n + 1)) = List.range n := by
        apply List.filter_eq_self.2
        intro a ha
        have := List.mem_range.1 ha
        simp; omega
      simp [h1]

theorem draws_hit (s n : ℕ) (h : s < n) : draws (fun r => r == s) n = 1 := by
  unfold draws
  induction n with
  | zero => omega
  | succ n ih =>
    rw [List.range_succ, List.filter_append, List.length_append]
    by_cases hs : s < n
    · have : ¬ n = s := by omega
      simp [ih hs, this]
    · have hS : s = n := by omega
      subst hS
      have h1 : (List.range s).filter (fun r => r == s) = [] := by
        apply List.filter_eq_nil_iff.2
        intro a ha
        have := List.mem_range.1 ha
        simp; omega
      simp [h1]

def incl (S i : ℕ) : ℕ → ℚ
  | 0 => 0
  | n + 1 =>
    if n + 1 ≤ S then (if i ≤ n then 1 else 0)
    else if i = n then (draws (fun r => r < S) (n + 1) : ℚ) / ((n : ℚ) + 1)
    else incl S i n * (1 - (draws (fun r => r == 0) (n + 1) : ℚ) / ((n : ℚ) + 1))

/-- Every pushed item is in the sample with probability `S / n`. -/
theorem reservoir_uniform (S i n : ℕ) (hn : S < n) (hi : i < n) :
    incl S i n = (S : ℚ) / n := by
  induction n with
  | zero => omega
  | succ n ih =>
    have hns : ¬ n + 1 ≤ S := by omega
    have e1 : draws (fun r => r < S) (n + 1) = S := draws_enter S (n + 1) (by omega)
    have e2 : draws (fun r => r == 0) (n + 1) = 1 := draws_hit 0 (n + 1) (by omega)
    have hpos : ((n : ℚ) + 1) ≠ 0 := by positivity
    unfold incl
    rw [if_neg hns]
    by_cases h : i = n
    · rw [if_pos h, e1]; push_cast; rfl
    · rw [if_neg h, e2]
      by_cases hs : S < n
      · rw [ih hs (by omega)]
        have hn0 : (n : ℚ) ≠ 0 := by
          have : 0 < n := by omega
          positivity
        push_cast
        field_simp
        ring
      · have hSn : S = n := by omega
        have h1 : incl S i n = 1 := by
          cases n with
          | zero => omega
          | succ m =>
            unfold incl
            rw [if_pos (by omega), if_pos (by omega)]
        rw [h1, hSn]
        push_cast
        field_simp
        ring

/-- While at most `S` items have been pushed every item is in the sample. -/
theorem reservoir_all (S i n : ℕ) (hn : n ≤ S) (hi : i < n) : incl S i n = 1 := by
  cases n with
  | zero => omega
  | succ m =>
    unfold incl
    rw [if_pos hn, if_pos (by omega)]
