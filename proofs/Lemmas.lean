/-
The mathematical facts the contracts use without deriving them (reported as "lemma" in the evidence), for all sizes and all
values. Checked with:  lean proofs/Lemmas.lean   (Lean 4.33, Mathlib). No axioms beyond Lean's own; no `sorry`.
A sample k in [0, N) of an array is the element k of ZMod N; the transforms are those NumPy and TensorFlow document:
forward  F(k, l) = SUM a(p, q) exp(-2 pi i (k p / N + l q / M)),  inverse with the opposite sign and 1 / (N M).
-/
import Mathlib.Analysis.Fourier.ZMod
import Mathlib.Analysis.Complex.Trigonometric
import Mathlib.Analysis.SpecialFunctions.Artanh
import Mathlib.Analysis.SpecialFunctions.Trigonometric.Inverse
import Mathlib.Analysis.SpecialFunctions.Trigonometric.DerivHyp
import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Tactic

open Finset ZMod AddChar
open scoped BigOperators ComplexConjugate

namespace PySLM2

variable {N M : ℕ} [NeZero N] [NeZero M]

/-- the kernel is the documented one -/
theorem kernel (k p : ℤ) :
    (stdAddChar (-((p : ZMod N) * (k : ZMod N))) : ℂ) = Complex.exp (2 * Real.pi * Complex.I * ((-(p * k) : ℤ) : ℂ) / N) := by
  rw [← stdAddChar_coe]; push_cast; rfl

/-- two-dimensional transform: along the second axis of the transform along the first -/
noncomputable def dft2 (a : ZMod N → ZMod M → ℂ) : ZMod N → ZMod M → ℂ := fun k => dft (dft a k)
noncomputable def idft2 (a : ZMod N → ZMod M → ℂ) : ZMod N → ZMod M → ℂ := dft.symm (fun k => dft.symm (a k))

theorem dft2_apply (a : ZMod N → ZMod M → ℂ) (k : ZMod N) (l : ZMod M) :
    dft2 a k l = ∑ p, ∑ q, stdAddChar (-(p * k)) * stdAddChar (-(q * l)) * a p q := by
  unfold dft2
  simp only [dft_apply, smul_eq_mul, Finset.sum_apply, Pi.smul_apply, Finset.mul_sum]
  rw [Finset.sum_comm]
  refine Finset.sum_congr rfl fun p _ => Finset.sum_congr rfl fun q _ => ?_
  ring

/-- dft-inversion -/
theorem inversion (a : ZMod N → ZMod M → ℂ) : idft2 (dft2 a) = a := by
  unfold idft2 dft2
  simp

theorem inversion' (a : ZMod N → ZMod M → ℂ) : dft2 (idft2 a) = a := by
  unfold idft2 dft2
  simp

/-- a sum over all indices is unchanged by a cyclic shift -/
theorem shift_sum (f : ZMod N → ZMod M → ℝ) (s : ZMod N) (t : ZMod M) :
    ∑ i, ∑ j, f (i + s) (j + t) = ∑ i, ∑ j, f i j := by
  rw [Fintype.sum_equiv (Equiv.addRight s) (fun i => ∑ j, f (i + s) (j + t)) (fun i => ∑ j, f i (j + t)) (fun i => by simp)]
  exact Finset.sum_congr rfl fun i _ =>
    Fintype.sum_equiv (Equiv.addRight t) (fun j => f i (j + t)) (fun j => f i j) (fun j => by simp)

theorem conj_char (x : ZMod N) : conj (stdAddChar x : ℂ) = stdAddChar (-x) := by
  rw [stdAddChar_apply, stdAddChar_apply, AddChar.map_neg_eq_inv, Circle.coe_inv_eq_conj]

theorem abs_char (x : ZMod N) : ‖(stdAddChar x : ℂ)‖ = 1 := by
  rw [stdAddChar_apply]; exact Circle.norm_coe _

/-- Parseval in one dimension -/
theorem parseval1 (a : ZMod N → ℂ) : ∑ k, Complex.normSq (dft a k) = N * ∑ p, Complex.normSq (a p) := by
  have key : ∑ k, dft a k * conj (dft a k) = (N : ℂ) * ∑ p, a p * conj (a p) := by
    have h : ∀ k, dft a k * conj (dft a k) = ∑ p, ∑ q, a p * conj (a q) * stdAddChar (k * (q - p)) := by
      intro k
      simp only [dft_apply, smul_eq_mul, map_sum, map_mul, conj_char, neg_neg, Finset.sum_mul_sum]
      refine Finset.sum_congr rfl fun p _ => Finset.sum_congr rfl fun q _ => ?_
      have : (stdAddChar (k * (q - p)) : ℂ) = stdAddChar (-(p * k)) * stdAddChar (q * k) := by
        rw [← AddChar.map_add_eq_mul]; congr 1; ring
      rw [this]; ring
    simp only [h]
    rw [Finset.sum_comm]
    simp_rw [Finset.sum_comm (s := (Finset.univ : Finset (ZMod N))) (t := (Finset.univ : Finset (ZMod N))) (f := fun k q => _ * _ * (stdAddChar (k * (q - _)) : ℂ))]
    rw [Finset.mul_sum]
    refine Finset.sum_congr rfl fun p _ => ?_
    simp_rw [← Finset.mul_sum, AddChar.sum_mulShift _ (isPrimitive_stdAddChar N), sub_eq_zero]
    simp [ZMod.card]
    ring
  have := congrArg Complex.re key
  simp only [Complex.mul_conj] at this
  norm_cast at this

/-- Parseval: SUM |F a|^2 = N M SUM |a|^2 -/
theorem parseval (a : ZMod N → ZMod M → ℂ) :
    ∑ k, ∑ l, Complex.normSq (dft2 a k l) = (N * M : ℝ) * ∑ p, ∑ q, Complex.normSq (a p q) := by
  unfold dft2
  simp only [parseval1]
  have col : ∀ (k : ZMod N) (q : ZMod M), dft a k q = dft (fun p => a p q) k := by
    intro k q; simp [dft_apply, Finset.sum_apply]
  rw [← Finset.mul_sum, Finset.sum_comm]
  simp only [col, parseval1]
  rw [← Finset.mul_sum, Finset.sum_comm (f := fun p q => Complex.normSq (a p q))]
  ring

/-- the form used: SUM |ifft2(b)|^2 * N M = SUM |b|^2 -/
theorem parseval_inverse (b : ZMod N → ZMod M → ℂ) :
    (∑ k, ∑ l, Complex.normSq (idft2 b k l)) * (N * M : ℝ) = ∑ p, ∑ q, Complex.normSq (b p q) := by
  have h := parseval (idft2 b)
  rw [inversion'] at h
  rw [h]; ring

/-- dft-shift: a circular shift of the input keeps the modulus of the transform -/
theorem shift_modulus (a : ZMod N → ZMod M → ℂ) (s : ZMod N) (t : ZMod M) (k : ZMod N) (l : ZMod M) :
    ‖dft2 (fun p q => a (p + s) (q + t)) k l‖ = ‖dft2 a k l‖ := by
  have h : dft2 (fun p q => a (p + s) (q + t)) k l = stdAddChar (s * k) * stdAddChar (t * l) * dft2 a k l := by
    rw [dft2_apply, dft2_apply, Finset.mul_sum]
    refine Fintype.sum_equiv (Equiv.addRight s) _ _ fun p => ?_
    rw [Finset.mul_sum]
    refine Fintype.sum_equiv (Equiv.addRight t) _ _ fun q => ?_
    simp only [Equiv.coe_addRight]
    have h1 : (stdAddChar (-(p * k)) : ℂ) = stdAddChar (s * k) * stdAddChar (-((p + s) * k)) := by
      rw [← AddChar.map_add_eq_mul]; congr 1; ring
    have h2 : (stdAddChar (-(q * l)) : ℂ) = stdAddChar (t * l) * stdAddChar (-((q + t) * l)) := by
      rw [← AddChar.map_add_eq_mul]; congr 1; ring
    rw [h1, h2]; ring
  rw [h, norm_mul, norm_mul, abs_char, abs_char]; ring

/-- zero padding adds nothing to a sum -/
theorem padding (f : ℕ → ℕ → ℝ) (n m p q : ℕ) :
    ∑ i ∈ range (n + 2 * p), ∑ j ∈ range (m + 2 * q),
      (if p ≤ i ∧ i < n + p ∧ q ≤ j ∧ j < m + q then f (i - p) (j - q) else 0) = ∑ i ∈ range n, ∑ j ∈ range m, f i j := by
  have one : ∀ (g : ℕ → ℝ) (n p : ℕ), ∑ i ∈ range (n + 2 * p), (if p ≤ i ∧ i < n + p then g (i - p) else 0) = ∑ i ∈ range n, g i := by
    intro g n p
    rw [← Finset.sum_filter]
    refine Finset.sum_nbij' (fun i => i - p) (fun i => i + p) ?_ ?_ ?_ ?_ ?_
    · intro i hi; simp only [Finset.mem_filter, Finset.mem_range] at *; omega
    · intro i hi; simp only [Finset.mem_filter, Finset.mem_range] at *; omega
    · intro i hi; simp only [Finset.mem_filter, Finset.mem_range] at *; omega
    · intro i hi; simp
    · intro i hi; rfl
  rw [← one (fun i => ∑ j ∈ range m, f i j) n p]
  refine Finset.sum_congr rfl fun i _ => ?_
  by_cases h : p ≤ i ∧ i < n + p
  · rw [if_pos h, ← one (fun j => f (i - p) j) m q]
    refine Finset.sum_congr rfl fun j _ => ?_
    simp [h.1, h.2]
  · rw [if_neg h]
    refine Finset.sum_eq_zero fun j _ => ?_
    rw [if_neg]; tauto

/-- equal summands have equal sums; smaller summands have smaller sums -/
theorem sums_eq (f g : ℕ → ℕ → ℝ) (n m : ℕ) (h : ∀ i < n, ∀ j < m, f i j = g i j) :
    ∑ i ∈ range n, ∑ j ∈ range m, f i j = ∑ i ∈ range n, ∑ j ∈ range m, g i j :=
  Finset.sum_congr rfl fun i hi => Finset.sum_congr rfl fun j hj => h i (mem_range.mp hi) j (mem_range.mp hj)

theorem sums_le (f g : ℕ → ℕ → ℝ) (n m : ℕ) (h : ∀ i < n, ∀ j < m, f i j ≤ g i j) :
    ∑ i ∈ range n, ∑ j ∈ range m, f i j ≤ ∑ i ∈ range n, ∑ j ∈ range m, g i j :=
  Finset.sum_le_sum fun i hi => Finset.sum_le_sum fun j hj => h i (mem_range.mp hi) j (mem_range.mp hj)

/-- n (n + 1) is even -/
theorem even_product (n : ℤ) : ∃ h : ℤ, n * (n + 1) = 2 * h := by
  obtain ⟨h, e⟩ := Int.even_mul_succ_self n
  exact ⟨h, by omega⟩

/-- tanh is increasing, |tanh| < 1 -/
theorem tanh_increasing (x y : ℝ) (h : x ≤ y) : Real.tanh x ≤ Real.tanh y := by
  have hx := Real.cosh_pos x
  have hy := Real.cosh_pos y
  rw [Real.tanh_eq_sinh_div_cosh, Real.tanh_eq_sinh_div_cosh, div_le_div_iff₀ hx hy]
  have := Real.sinh_nonneg_iff.mpr (sub_nonneg.mpr h)
  rw [Real.sinh_sub] at this
  nlinarith

theorem tanh_bound (x : ℝ) : Real.tanh x < 1 ∧ -1 < Real.tanh x := ⟨Real.tanh_lt_one x, Real.neg_one_lt_tanh x⟩

/-- asin maps [0, 1] into [0, pi/2], asin 0 = 0 -/
theorem asin_range (x : ℝ) (h : 0 ≤ x) : 0 ≤ Real.arcsin x ∧ Real.arcsin x ≤ Real.pi / 2 ∧ Real.arcsin 0 = 0 :=
  ⟨Real.arcsin_nonneg.mpr h, Real.arcsin_le_pi_div_two x, Real.arcsin_zero⟩

/-- the closed form the engine uses for loops v <- c v + d -/
theorem affine_loop (v d : ℕ → ℝ) (c : ℝ) (h : ∀ k, v (k + 1) = c * v k + d k) (n : ℕ) :
    v n = v 0 * c ^ n + ∑ k ∈ range n, d k * c ^ (n - 1 - k) := by
  induction n with
  | zero => simp
  | succ n ih =>
    rw [h, ih, Finset.sum_range_succ, mul_add, Finset.mul_sum]
    have e : ∀ k ∈ range n, c * (d k * c ^ (n - 1 - k)) = d k * c ^ (n + 1 - 1 - k) := by
      intro k hk
      have hk' := mem_range.mp hk
      have : n + 1 - 1 - k = (n - 1 - k) + 1 := by omega
      rw [this, pow_succ]; ring
    rw [Finset.sum_congr rfl e]
    simp [pow_succ]; ring

/-- two recurrences with equal start and equal steps are equal (the rule used for iterated loops) -/
theorem recurrence {S : Type*} (u v : ℕ → S) (f g : ℕ → S → S) (h0 : u 0 = v 0) (hu : ∀ k, u (k + 1) = f k (u k))
    (hv : ∀ k, v (k + 1) = g k (v k)) (step : ∀ k s, f k s = g k s) (n : ℕ) : u n = v n := by
  induction n with
  | zero => exact h0
  | succ n ih => rw [hu, hv, ih, step]

end PySLM2
