import Mathlib.Data.Nat.Choose.Sum
import Mathlib.Data.Real.Basic
import Mathlib.Algebra.Order.Group.Int
import Mathlib.Order.Interval.Finset.Nat
import Mathlib.Data.Int.Interval
import Mathlib.Tactic

open Finset
noncomputable section

/-! Interpretation of the functions of the theories powers and moments. -/

def inv (x : ℝ) : ℝ := x⁻¹
def rpow (x : ℝ) (n : ℤ) : ℝ := x ^ n
def sgn (n : ℤ) : ℤ := if n % 2 = 0 then 1 else -1
def binom (n k : ℤ) : ℤ := (Nat.choose n.toNat k.toNat : ℤ)
/-- the sum of a over [lo, hi) -/
def asum (a : ℤ → ℝ) (lo hi : ℤ) : ℝ := ∑ j ∈ range (hi - lo).toNat, a (lo + j)
/-- the k-th power sum of a over [lo, hi) about c -/
def psum (a : ℤ → ℝ) (lo hi : ℤ) (c : ℝ) (k : ℤ) : ℝ := ∑ j ∈ range (hi - lo).toNat, (a (lo + j) - c) ^ k
/-- the terms 1..m of the binomial expansion used by the updates -/
def binner (S : ℤ → ℝ) (k : ℤ) (d n : ℝ) (m : ℤ) : ℝ :=
  ∑ j ∈ Icc 1 m.toNat, ((binom k j : ℤ) : ℝ) * ((sgn j : ℤ) : ℝ) * (rpow d j * inv (rpow n j)) * S (k - j)
def dinner (S : ℤ → ℝ) (k : ℤ) (e d : ℝ) (m : ℤ) : ℝ :=
  ∑ j ∈ Icc 1 m.toNat, ((binom k j : ℤ) : ℝ) * ((sgn j : ℤ) : ℝ) * (rpow e j * rpow d j) * S (k - j)
/-- the weights of exponential decay: d(1-d)^(n-1-i), and (1-d)^(n-1) for the first value -/
def ew (d : ℝ) (n i : ℕ) : ℝ := if i = 0 then (1 - d) ^ (n - 1) else d * (1 - d) ^ (n - 1 - i)
def emean (a : ℤ → ℝ) (n : ℤ) (d : ℝ) : ℝ := ∑ j ∈ range n.toNat, ew d n.toNat j * a j
def esum (a : ℤ → ℝ) (n : ℤ) (c : ℝ) (k : ℤ) (d : ℝ) : ℝ := ∑ j ∈ range n.toNat, ew d n.toNat j * (a j - c) ^ k

/-! The expansion about a shifted centre. -/

theorem sgn_cast (j : ℕ) : ((sgn (j : ℤ) : ℤ) : ℝ) = (-1) ^ j := by
  unfold sgn
  rcases Nat.even_or_odd j with h | h
  · have : ((j : ℤ) % 2) = 0 := by
      obtain ⟨t, rfl⟩ := h; push_cast; omega
    simp [this, h.neg_one_pow]
  · have : ((j : ℤ) % 2) ≠ 0 := by
      obtain ⟨t, rfl⟩ := h; push_cast; omega
    simp [this, h.neg_one_pow]

theorem expand {ι : Type} (s : Finset ι) (w f : ι → ℝ) (c r : ℝ) (K : ℕ) :
    ∑ i ∈ s, w i * (f i - (c + r)) ^ K
      = ∑ j ∈ range (K + 1), (Nat.choose K j : ℝ) * ((-1) ^ j * r ^ j) * ∑ i ∈ s, w i * (f i - c) ^ (K - j) := by
  have h : ∀ i, (f i - (c + r)) ^ K
      = ∑ j ∈ range (K + 1), (Nat.choose K j : ℝ) * ((-1) ^ j * r ^ j) * (f i - c) ^ (K - j) := by
    intro i
    have : f i - (c + r) = (-r) + (f i - c) := by ring
    rw [this, add_pow]
    apply sum_congr rfl
    intro j _
    rw [neg_pow r j]; ring
  simp_rw [h, mul_sum]
  rw [sum_comm]
  apply sum_congr rfl
  intro j _
  apply sum_congr rfl
  intro i _
  ring

theorem sum_Icc1 (g : ℕ → ℝ) (K : ℕ) : ∑ j ∈ Icc 1 K, g j = ∑ j ∈ range K, g (j + 1) := by
  induction K with
  | zero => simp
  | succ n ih => rw [sum_range_succ, ← ih, Finset.sum_Icc_succ_top (by omega)]

theorem expand' {ι : Type} (s : Finset ι) (w f : ι → ℝ) (c r : ℝ) (K : ℕ)
    (h1 : ∑ i ∈ s, w i * (f i - c) = 0) :
    ∑ i ∈ s, w i * (f i - (c + r)) ^ (K + 2)
      = (∑ i ∈ s, w i * (f i - c) ^ (K + 2))
        + (∑ j ∈ Icc 1 K, (Nat.choose (K + 2) j : ℝ) * ((-1) ^ j * r ^ j) * ∑ i ∈ s, w i * (f i - c) ^ (K + 2 - j))
        + (-1) ^ (K + 2) * r ^ (K + 2) * ∑ i ∈ s, w i := by
  rw [expand, sum_range_succ, sum_range_succ, sum_range_succ']
  have e1 : K + 2 - (K + 1) = 1 := by omega
  have := sum_Icc1 (fun j => (Nat.choose (K + 2) j : ℝ) * ((-1) ^ j * r ^ j) * ∑ i ∈ s, w i * (f i - c) ^ (K + 2 - j)) K
  rw [e1, this]
  simp [h1]
  ring

/-! Elementary facts. -/

theorem asum_empty_proof : ∀ (a : ℤ → ℝ) (lo hi : ℤ), hi ≤ lo → asum a lo hi = 0 := by
  intro a lo hi h
  have : (hi - lo).toNat = 0 := by omega
  simp [asum, this]

theorem psum_empty_proof : ∀ (a : ℤ → ℝ) (lo hi : ℤ) (c : ℝ) (k : ℤ), hi ≤ lo → psum a lo hi c k = 0 := by
  intro a lo hi c k h
  have : (hi - lo).toNat = 0 := by omega
  simp [psum, this]

theorem asum_store_proof : ∀ (a : ℤ → ℝ) (i : ℤ) (v : ℝ) (lo hi : ℤ), hi ≤ i → asum (Function.update a i v) lo hi = asum a lo hi := by
  intro a i v lo hi h
  unfold asum
  apply sum_congr rfl
  intro j hj
  rw [mem_range] at hj
  rw [Function.update_of_ne]; omega

theorem psum_store_proof : ∀ (a : ℤ → ℝ) (i : ℤ) (v : ℝ) (lo hi : ℤ) (c : ℝ) (k : ℤ), hi ≤ i →
    psum (Function.update a i v) lo hi c k = psum a lo hi c k := by
  intro a i v lo hi c k h
  unfold psum
  apply sum_congr rfl
  intro j hj
  rw [mem_range] at hj
  rw [Function.update_of_ne]; omega

theorem emean_store_proof : ∀ (a : ℤ → ℝ) (i : ℤ) (v : ℝ) (n : ℤ) (d : ℝ), n ≤ i → emean (Function.update a i v) n d = emean a n d := by
  intro a i v n d h
  unfold emean
  apply sum_congr rfl
  intro j hj
  rw [mem_range] at hj
  rw [Function.update_of_ne]; omega

theorem esum_store_proof : ∀ (a : ℤ → ℝ) (i : ℤ) (v : ℝ) (n : ℤ) (c : ℝ) (k : ℤ) (d : ℝ), n ≤ i →
    esum (Function.update a i v) n c k d = esum a n c k d := by
  intro a i v n c k d h
  unfold esum
  apply sum_congr rfl
  intro j hj
  rw [mem_range] at hj
  rw [Function.update_of_ne]; omega

theorem asum_last {a : ℤ → ℝ} {lo : ℤ} {N : ℕ} : asum a lo (lo + N + 1) = asum a lo (lo + N) + a (lo + N) := by
  have h1 : (lo + N + 1 - lo).toNat = N + 1 := by omega
  have h2 : (lo + N - lo).toNat = N := by omega
  rw [asum, asum, h1, h2, sum_range_succ]

theorem asum_add_proof : ∀ (a : ℤ → ℝ) (lo hi : ℤ), lo < hi → asum a lo hi = asum a lo (hi - 1) + a (hi - 1) := by
  intro a lo hi h
  obtain ⟨N, hN⟩ : ∃ N : ℕ, hi = lo + N + 1 := ⟨(hi - lo - 1).toNat, by omega⟩
  subst hN
  rw [asum_last]
  simp

theorem asum_first_proof : ∀ (a : ℤ → ℝ) (lo hi : ℤ), lo < hi → asum a lo hi = a lo + asum a (lo + 1) hi := by
  intro a lo hi h
  obtain ⟨N, hN⟩ : ∃ N : ℕ, hi = lo + N + 1 := ⟨(hi - lo - 1).toNat, by omega⟩
  subst hN
  have h1 : (lo + N + 1 - lo).toNat = N + 1 := by omega
  have h2 : (lo + N + 1 - (lo + 1)).toNat = N := by omega
  rw [asum, asum, h1, h2, sum_range_succ', add_comm]
  simp only [Nat.cast_zero, add_zero]
  congr 1
  apply sum_congr rfl
  intro j _
  congr 1; push_cast; ring

theorem psum_last {a : ℤ → ℝ} {lo : ℤ} {N : ℕ} {c : ℝ} {k : ℤ} :
    psum a lo (lo + N + 1) c k = psum a lo (lo + N) c k + (a (lo + N) - c) ^ k := by
  have h1 : (lo + N + 1 - lo).toNat = N + 1 := by omega
  have h2 : (lo + N - lo).toNat = N := by omega
  rw [psum, psum, h1, h2, sum_range_succ]

theorem psum_first {a : ℤ → ℝ} {lo : ℤ} {N : ℕ} {c : ℝ} {k : ℤ} :
    psum a lo (lo + N + 1) c k = psum a (lo + 1) (lo + N + 1) c k + (a lo - c) ^ k := by
  have h1 : (lo + N + 1 - lo).toNat = N + 1 := by omega
  have h2 : (lo + N + 1 - (lo + 1)).toNat = N := by omega
  rw [psum, psum, h1, h2, sum_range_succ']
  simp only [Nat.cast_zero, add_zero]
  congr 1
  apply sum_congr rfl
  intro j _
  congr 2; congr 1; push_cast; ring

theorem psum_one_proof : ∀ (a : ℤ → ℝ) (lo hi : ℤ) (c : ℝ), lo < hi → c * (((hi - lo) : ℤ) : ℝ) = asum a lo hi →
    psum a lo hi c (1 : ℤ) = 0 := by
  intro a lo hi c h hc
  obtain ⟨N, hN⟩ : ∃ N : ℕ, hi = lo + N := ⟨(hi - lo).toNat, by omega⟩
  subst hN
  have h2 : (lo + N - lo).toNat = N := by omega
  rw [asum, h2] at hc
  rw [psum, h2]
  simp only [zpow_one, sum_sub_distrib, sum_const, card_range, nsmul_eq_mul]
  rw [← hc]; push_cast; ring

/-- binner in terms of natural numbers -/
theorem binner_nat (S : ℤ → ℝ) (K : ℕ) (d n : ℝ) (M : ℕ) :
    binner S (K : ℤ) d n (M : ℤ) = ∑ j ∈ Icc 1 M, (Nat.choose K j : ℝ) * ((-1) ^ j * (d / n) ^ j) * S ((K : ℤ) - j) := by
  unfold binner
  rw [Int.toNat_natCast]
  apply sum_congr rfl
  intro j _
  rw [sgn_cast]
  simp only [binom, Int.toNat_natCast, rpow, inv, zpow_natCast, Int.cast_natCast]
  rw [div_pow, div_eq_mul_inv]
  ring

theorem dinner_nat (S : ℤ → ℝ) (K : ℕ) (e d : ℝ) (M : ℕ) :
    dinner S (K : ℤ) e d (M : ℤ) = ∑ j ∈ Icc 1 M, (Nat.choose K j : ℝ) * ((-1) ^ j * (e * d) ^ j) * S ((K : ℤ) - j) := by
  unfold dinner
  rw [Int.toNat_natCast]
  apply sum_congr rfl
  intro j _
  rw [sgn_cast]
  simp only [binom, Int.toNat_natCast, rpow, zpow_natCast, Int.cast_natCast]
  rw [mul_pow]
  ring

theorem binner_zero_proof : ∀ (S : ℤ → ℝ) (k : ℤ) (d n : ℝ) (m : ℤ), m ≤ 0 → binner S k d n m = 0 := by
  intro S k d n m h
  have : m.toNat = 0 := by omega
  simp [binner, this]

theorem binner_step_proof : ∀ (S : ℤ → ℝ) (k : ℤ) (d n : ℝ) (m : ℤ), 1 ≤ m →
    binner S k d n m = binner S k d n (m - 1) + ((binom k m : ℤ) : ℝ) * ((sgn m : ℤ) : ℝ) * (rpow d m * inv (rpow n m)) * S (k - m) := by
  intro S k d n m h
  obtain ⟨M, hM⟩ : ∃ M : ℕ, m = M + 1 := ⟨(m - 1).toNat, by omega⟩
  subst hM
  have h1 : ((M : ℤ) + 1).toNat = M + 1 := by omega
  have h2 : ((M : ℤ) + 1 - 1).toNat = M := by omega
  rw [binner, binner, h1, h2, Finset.sum_Icc_succ_top (by omega)]
  push_cast; rfl

theorem dinner_zero_proof : ∀ (S : ℤ → ℝ) (k : ℤ) (e d : ℝ) (m : ℤ), m ≤ 0 → dinner S k e d m = 0 := by
  intro S k e d m h
  have : m.toNat = 0 := by omega
  simp [dinner, this]

theorem dinner_step_proof : ∀ (S : ℤ → ℝ) (k : ℤ) (e d : ℝ) (m : ℤ), 1 ≤ m →
    dinner S k e d m = dinner S k e d (m - 1) + ((binom k m : ℤ) : ℝ) * ((sgn m : ℤ) : ℝ) * (rpow e m * rpow d m) * S (k - m) := by
  intro S k e d m h
  obtain ⟨M, hM⟩ : ∃ M : ℕ, m = M + 1 := ⟨(m - 1).toNat, by omega⟩
  subst hM
  have h1 : ((M : ℤ) + 1).toNat = M + 1 := by omega
  have h2 : ((M : ℤ) + 1 - 1).toNat = M := by omega
  rw [dinner, dinner, h1, h2, Finset.sum_Icc_succ_top (by omega)]
  push_cast; rfl

theorem rpow_base0_proof : ∀ (n : ℤ), 1 ≤ n → rpow (0 : ℝ) n = (0 : ℝ) := by
  intro n h
  unfold rpow
  exact zero_zpow n (by omega)

/-! The updates of the central sums (Pébay et al.). -/

theorem psum_nat (a : ℤ → ℝ) (lo : ℤ) (N : ℕ) (c : ℝ) (K : ℕ) :
    psum a lo (lo + N) c (K : ℤ) = ∑ j ∈ range N, (1 : ℝ) * (a (lo + j) - c) ^ K := by
  have h2 : (lo + N - lo).toNat = N := by omega
  rw [psum, h2]
  apply sum_congr rfl
  intro j _
  rw [zpow_natCast, one_mul]

/-- shifting the centre of the sums over [lo, lo+N) from their mean c by r -/
theorem psum_shift (a : ℤ → ℝ) (lo : ℤ) (N : ℕ) (c d n : ℝ) (S : ℤ → ℝ) (K : ℕ)
    (hc : c * N = asum a lo (lo + N))
    (hS : ∀ j : ℤ, 2 ≤ j ∧ j ≤ (K : ℤ) + 2 → S j = psum a lo (lo + N) c j) :
    psum a lo (lo + N) (c + d / n) ((K + 2 : ℕ) : ℤ)
      = psum a lo (lo + N) c ((K + 2 : ℕ) : ℤ) + binner S ((K + 2 : ℕ) : ℤ) d n (K : ℤ)
        + (-1) ^ (K + 2) * (d / n) ^ (K + 2) * N := by
  have h2 : (lo + N - lo).toNat = N := by omega
  have h1 : ∑ j ∈ range N, (1 : ℝ) * (a (lo + j) - c) = 0 := by
    rw [asum, h2] at hc
    simp only [one_mul, sum_sub_distrib, sum_const, card_range, nsmul_eq_mul]
    rw [← hc]; ring
  rw [psum_nat, expand' (range N) (fun _ => 1) (fun j => a (lo + j)) c (d / n) K h1, psum_nat, binner_nat]
  congr 1
  · congr 1
    apply sum_congr rfl
    intro j hj
    rw [mem_Icc] at hj
    have e : ((K + 2 : ℕ) : ℤ) - (j : ℤ) = ((K + 2 - j : ℕ) : ℤ) := by omega
    rw [e, hS _ ⟨by omega, by omega⟩, psum_nat]
  · simp

theorem coeff_eq (n d : ℝ) (K : ℕ) (hn : n ≠ 0) :
    (n - 1) * inv (rpow n ((K + 2 : ℕ) : ℤ)) * (rpow (n - 1) (((K + 2 : ℕ) : ℤ) - 1) + ((sgn ((K + 2 : ℕ) : ℤ) : ℤ) : ℝ)) * rpow d ((K + 2 : ℕ) : ℤ)
      = (-1) ^ (K + 2) * (d / n) ^ (K + 2) * (n - 1) + ((n - 1) * d / n) ^ (K + 2) := by
  have e : ((K + 2 : ℕ) : ℤ) - 1 = ((K + 1 : ℕ) : ℤ) := by omega
  rw [e, sgn_cast]
  simp only [inv, rpow, zpow_natCast]
  rw [div_pow, div_pow, mul_pow, pow_succ (n - 1) (K + 1), div_eq_mul_inv, div_eq_mul_inv]
  ring

theorem psum_add_proof : ∀ (a : ℤ → ℝ) (lo hi : ℤ) (S : ℤ → ℝ) (k : ℤ) (d n c : ℝ) (m : ℤ),
    (lo < hi ∧ 2 ≤ k ∧ m = k - 2 ∧ n = ((hi - lo : ℤ) : ℝ) ∧ c * n = (a (hi - 1) - d) * n + d
      ∧ (a (hi - 1) - d) * ((hi - 1 - lo : ℤ) : ℝ) = asum a lo (hi - 1)
      ∧ (∀ j : ℤ, (2 ≤ j ∧ j < k) → S j = psum a lo (hi - 1) (a (hi - 1) - d) j)) →
    psum a lo hi c k = psum a lo (hi - 1) (a (hi - 1) - d) k + (n - 1) * inv (rpow n k) * (rpow (n - 1) (k - 1) + ((sgn k : ℤ) : ℝ)) * rpow d k + binner S k d n m := by
  rintro a lo hi S k d n c m ⟨h, hk, hm, hn, hc, hmean, hS⟩
  obtain ⟨N, hN⟩ : ∃ N : ℕ, hi = lo + N + 1 := ⟨(hi - lo - 1).toNat, by omega⟩
  obtain ⟨K, hK⟩ : ∃ K : ℕ, k = ((K + 2 : ℕ) : ℤ) := ⟨(k - 2).toNat, by omega⟩
  have hm' : m = (K : ℤ) := by omega
  subst hN hK hm'
  have e1 : lo + (N : ℤ) + 1 - 1 = lo + N := by ring
  rw [e1] at hmean hS hc
  rw [e1]
  have e2 : n = N + 1 := by rw [hn]; push_cast; ring
  have hn0 : n ≠ 0 := by rw [e2]; positivity
  have e3 : ((lo + N - lo : ℤ) : ℝ) = N := by push_cast; ring
  rw [e3] at hmean
  have e4 : c = (a (lo + N) - d) + d / n := by
    have h9 : c = (c * n) / n := by field_simp
    rw [h9, hc]; field_simp
  let S' : ℤ → ℝ := fun j => psum a lo (lo + N) (a (lo + N) - d) j
  have hb : binner S ((K + 2 : ℕ) : ℤ) d n (K : ℤ) = binner S' ((K + 2 : ℕ) : ℤ) d n (K : ℤ) := by
    unfold binner
    apply sum_congr rfl
    intro j hj
    rw [mem_Icc, Int.toNat_natCast] at hj
    congr 1
    rw [hS _ ⟨by omega, by omega⟩]
  rw [hb]
  rw [psum_last, e4, psum_shift a lo N _ d n S' K hmean (by intro j hj; rfl), coeff_eq n d K hn0]
  rw [zpow_natCast]
  have e5 : a (lo + N) - (a (lo + N) - d + d / n) = (n - 1) * d / n := by field_simp; ring
  have e6 : (N : ℝ) = n - 1 := by rw [e2]; ring
  rw [e5, e6]
  ring

theorem psum_remove_proof : ∀ (a : ℤ → ℝ) (lo hi : ℤ) (S : ℤ → ℝ) (k : ℤ) (d n c : ℝ) (m : ℤ),
    (lo + 1 < hi ∧ 2 ≤ k ∧ m = k - 2 ∧ n = ((hi - lo : ℤ) : ℝ) ∧ c * n = (a lo - d) * n + d
      ∧ (a lo - d) * ((hi - 1 - lo : ℤ) : ℝ) = asum a (lo + 1) hi
      ∧ (∀ j : ℤ, (2 ≤ j ∧ j < k) → S j = psum a (lo + 1) hi (a lo - d) j)) →
    psum a (lo + 1) hi (a lo - d) k = psum a lo hi c k - (n - 1) * inv (rpow n k) * (rpow (n - 1) (k - 1) + ((sgn k : ℤ) : ℝ)) * rpow d k - binner S k d n m := by
  rintro a lo hi S k d n c m ⟨h, hk, hm, hn, hc, hmean, hS⟩
  obtain ⟨N, hN⟩ : ∃ N : ℕ, hi = lo + N + 1 := ⟨(hi - lo - 1).toNat, by omega⟩
  obtain ⟨K, hK⟩ : ∃ K : ℕ, k = ((K + 2 : ℕ) : ℤ) := ⟨(k - 2).toNat, by omega⟩
  have hm' : m = (K : ℤ) := by omega
  subst hN hK hm'
  have e2 : n = N + 1 := by rw [hn]; push_cast; ring
  have hn0 : n ≠ 0 := by rw [e2]; positivity
  have e3 : ((lo + N + 1 - 1 - lo : ℤ) : ℝ) = N := by push_cast; ring
  rw [e3] at hmean
  have e4 : c = (a lo - d) + d / n := by
    have h9 : c = (c * n) / n := by field_simp
    rw [h9, hc]; field_simp
  have e0 : lo + (N : ℤ) + 1 = (lo + 1) + N := by ring
  -- the value S k itself is not used by binner; replace it by the true sum
  let S' : ℤ → ℝ := fun j => psum a (lo + 1) (lo + 1 + N) (a lo - d) j
  have hb : binner S ((K + 2 : ℕ) : ℤ) d n (K : ℤ) = binner S' ((K + 2 : ℕ) : ℤ) d n (K : ℤ) := by
    unfold binner
    apply sum_congr rfl
    intro j hj
    rw [mem_Icc, Int.toNat_natCast] at hj
    congr 1
    rw [hS _ ⟨by omega, by omega⟩, e0]
  rw [psum_first, e4, hb]
  rw [e0] at hmean ⊢
  rw [psum_shift a (lo + 1) N _ d n S' K hmean (by intro j _; rfl), coeff_eq n d K hn0]
  rw [zpow_natCast]
  have e5 : a lo - (a lo - d + d / n) = (n - 1) * d / n := by field_simp; ring
  have e6 : (N : ℝ) = n - 1 := by rw [e2]; ring
  rw [e5, e6]
  ring

/-! Exponential decay. -/

theorem ew_succ (d : ℝ) (N j : ℕ) (h : j < N + 1) : ew d (N + 2) j = (1 - d) * ew d (N + 1) j := by
  unfold ew
  split
  · simp only [Nat.add_sub_cancel]
    have : N + 2 - 1 = N + 1 := by omega
    rw [this, pow_succ]; ring
  · have e : N + 2 - 1 - j = (N + 1 - 1 - j) + 1 := by omega
    rw [e, pow_succ]; ring

theorem ew_last (d : ℝ) (N : ℕ) : ew d (N + 2) (N + 1) = d := by
  simp [ew]

theorem ew_sum (d : ℝ) (N : ℕ) : ∑ j ∈ range (N + 1), ew d (N + 1) j = 1 := by
  induction N with
  | zero => simp [ew]
  | succ n ih =>
    rw [sum_range_succ, ew_last]
    have : ∑ j ∈ range (n + 1), ew d (n + 1 + 1) j = (1 - d) * ∑ j ∈ range (n + 1), ew d (n + 1) j := by
      rw [mul_sum]
      apply sum_congr rfl
      intro j hj
      rw [mem_range] at hj
      exact ew_succ d n j hj
    rw [this, ih]; ring

theorem ew_rec (d : ℝ) (N : ℕ) (g : ℕ → ℝ) :
    ∑ j ∈ range (N + 2), ew d (N + 2) j * g j = (1 - d) * (∑ j ∈ range (N + 1), ew d (N + 1) j * g j) + d * g (N + 1) := by
  rw [sum_range_succ, ew_last, mul_sum]
  congr 1
  apply sum_congr rfl
  intro j hj
  rw [mem_range] at hj
  rw [ew_succ d N j hj]; ring

theorem emean_one_proof : ∀ (a : ℤ → ℝ) (d : ℝ), emean a (1 : ℤ) d = a (0 : ℤ) := by
  intro a d; simp [emean, ew]

theorem esum_one_proof : ∀ (a : ℤ → ℝ) (c : ℝ) (k : ℤ) (d : ℝ), 1 ≤ k → c = a (0 : ℤ) → esum a (1 : ℤ) c k d = (0 : ℝ) := by
  intro a c k d h hc
  simp [esum, ew, hc]
  exact zero_zpow k (by omega)

theorem emean_step_proof : ∀ (a : ℤ → ℝ) (n : ℤ) (d : ℝ), 2 ≤ n →
    emean a n d = emean a (n - 1) d + d * (a (n - 1) - emean a (n - 1) d) := by
  intro a n d h
  obtain ⟨N, hN⟩ : ∃ N : ℕ, n = N + 2 := ⟨(n - 2).toNat, by omega⟩
  subst hN
  have h1 : ((N : ℤ) + 2).toNat = N + 2 := by omega
  have h2 : ((N : ℤ) + 2 - 1).toNat = N + 1 := by omega
  have h3 : (N : ℤ) + 2 - 1 = ((N + 1 : ℕ) : ℤ) := by omega
  rw [emean, emean, h1, h2, ew_rec d N (fun j => a j), h3]
  ring

theorem esum_nat (a : ℤ → ℝ) (N : ℕ) (c : ℝ) (K : ℕ) (d : ℝ) :
    esum a (N : ℤ) c (K : ℤ) d = ∑ j ∈ range N, ew d N j * (a j - c) ^ K := by
  rw [esum, Int.toNat_natCast]
  apply sum_congr rfl
  intro j _
  rw [zpow_natCast]

theorem efirst (a : ℤ → ℝ) (N : ℕ) (d : ℝ) :
    ∑ j ∈ range (N + 1), ew d (N + 1) j * (a j - emean a ((N + 1 : ℕ) : ℤ) d) = 0 := by
  simp only [mul_sub, sum_sub_distrib]
  rw [← sum_mul, ew_sum, emean, Int.toNat_natCast]
  ring

theorem esum_first_proof : ∀ (a : ℤ → ℝ) (n : ℤ) (c d : ℝ), (1 ≤ n ∧ c = emean a n d) → esum a n c (1 : ℤ) d = (0 : ℝ) := by
  rintro a n c d ⟨h, hc⟩
  obtain ⟨N, hN⟩ : ∃ N : ℕ, n = ((N + 1 : ℕ) : ℤ) := ⟨(n - 1).toNat, by omega⟩
  subst hN hc
  have := esum_nat a (N + 1) (emean a ((N + 1 : ℕ) : ℤ) d) 1 d
  rw [Nat.cast_one] at this
  rw [this]
  simpa using efirst a N d

theorem esum_step_proof : ∀ (a : ℤ → ℝ) (n : ℤ) (S : ℤ → ℝ) (k : ℤ) (d dl c : ℝ) (m : ℤ),
    (2 ≤ n ∧ 2 ≤ k ∧ m = k - 2 ∧ c = (a (n - 1) - dl) + d * dl ∧ a (n - 1) - dl = emean a (n - 1) d
      ∧ (∀ j : ℤ, (2 ≤ j ∧ j ≤ k) → S j = esum a (n - 1) (a (n - 1) - dl) j d)) →
    esum a n c k d = (1 - d) * S k + ((1 - d) * (rpow (-(1:ℝ)) k * rpow d k) + d * rpow (1 - d) k) * rpow dl k
      + (1 - d) * dinner S k d dl m := by
  rintro a n S k d dl c m ⟨h, hk, hm, hc, hmean, hS⟩
  obtain ⟨N, hN⟩ : ∃ N : ℕ, n = N + 2 := ⟨(n - 2).toNat, by omega⟩
  obtain ⟨K, hK⟩ : ∃ K : ℕ, k = ((K + 2 : ℕ) : ℤ) := ⟨(k - 2).toNat, by omega⟩
  have hm' : m = (K : ℤ) := by omega
  subst hN hK hm'
  have e1 : (N : ℤ) + 2 - 1 = ((N + 1 : ℕ) : ℤ) := by omega
  rw [e1] at hmean hS hc
  have e2 : (N : ℤ) + 2 = ((N + 2 : ℕ) : ℤ) := by omega
  rw [e2, esum_nat, ew_rec d N (fun j => (a j - c) ^ (K + 2)), hc]
  set c0 := a ((N + 1 : ℕ) : ℤ) - dl with hc0
  have h1 := efirst a N d
  rw [← hmean] at h1
  rw [expand' (range (N + 1)) (fun j => ew d (N + 1) j) (fun j => a j) c0 (d * dl) K h1, ew_sum, dinner_nat]
  rw [hS _ ⟨by push_cast; omega, le_refl _⟩, esum_nat]
  have e3 : ∑ j ∈ Icc 1 K, (Nat.choose (K + 2) j : ℝ) * ((-1) ^ j * (d * dl) ^ j) * S (((K + 2 : ℕ) : ℤ) - j)
      = ∑ j ∈ Icc 1 K, (Nat.choose (K + 2) j : ℝ) * ((-1) ^ j * (d * dl) ^ j) * ∑ i ∈ range (N + 1), ew d (N + 1) i * (a i - c0) ^ (K + 2 - j) := by
    apply sum_congr rfl
    intro j hj
    rw [mem_Icc] at hj
    have e : ((K + 2 : ℕ) : ℤ) - (j : ℤ) = ((K + 2 - j : ℕ) : ℤ) := by omega
    rw [e, hS _ ⟨by omega, by omega⟩, esum_nat]
  rw [e3]
  simp only [rpow, zpow_natCast]
  have e4 : a ((N + 1 : ℕ) : ℤ) - (c0 + d * dl) = (1 - d) * dl := by rw [hc0]; ring
  rw [e4, mul_pow, mul_pow]
  ring

/-! Forms with explicit second terms, for the solver's matching. -/

theorem asum_push_proof : ∀ (a : ℤ → ℝ) (i : ℤ) (v : ℝ) (lo hi : ℤ), (lo < hi ∧ hi = i + 1) →
    asum (Function.update a i v) lo hi = asum a lo i + v := by
  rintro a i v lo hi ⟨h, rfl⟩
  rw [asum_add_proof _ _ _ h, add_sub_cancel_right, asum_store_proof _ _ _ _ _ le_rfl, Function.update_self]

theorem asum_pop_proof : ∀ (a : ℤ → ℝ) (lo hi l2 : ℤ), (lo < hi ∧ l2 = lo + 1) → asum a lo hi = a lo + asum a l2 hi := by
  rintro a lo hi l2 ⟨h, rfl⟩
  exact asum_first_proof a lo hi h

theorem emean_push_proof : ∀ (a : ℤ → ℝ) (i : ℤ) (v : ℝ) (n : ℤ) (d : ℝ), (1 ≤ i ∧ n = i + 1) →
    emean (Function.update a i v) n d = emean a i d + d * (v - emean a i d) := by
  rintro a i v n d ⟨h, rfl⟩
  rw [emean_step_proof _ _ _ (by omega), add_sub_cancel_right, emean_store_proof _ _ _ _ _ le_rfl, Function.update_self]

theorem binner_next_proof : ∀ (S : ℤ → ℝ) (k : ℤ) (d n : ℝ) (m l : ℤ), (1 ≤ m ∧ l = m - 1) →
    binner S k d n m = binner S k d n l + ((binom k m : ℤ) : ℝ) * ((sgn m : ℤ) : ℝ) * (rpow d m * inv (rpow n m)) * S (k - m) := by
  rintro S k d n m l ⟨h, rfl⟩
  exact binner_step_proof S k d n m h

theorem dinner_next_proof : ∀ (S : ℤ → ℝ) (k : ℤ) (e d : ℝ) (m l : ℤ), (1 ≤ m ∧ l = m - 1) →
    dinner S k e d m = dinner S k e d l + ((binom k m : ℤ) : ℝ) * ((sgn m : ℤ) : ℝ) * (rpow e m * rpow d m) * S (k - m) := by
  rintro S k e d m l ⟨h, rfl⟩
  exact dinner_step_proof S k e d m h
