import Mathlib

/-!
Circular mean of sites that lie, unwrapped together, within half a cell (all within a quarter cell of some p).
`Complex.arg ⟨X, Y⟩` is arctan2(Y, X).  The angle of the weighted mean direction is 2π(c + k) with k whole and every
site less than half a cell from c.
-/

open Complex

variable {ι : Type*}

theorem dir_sum (s : Finset ι) (w u : ι → ℝ) :
    (⟨∑ j ∈ s, w j * Real.cos (2 * Real.pi * u j), ∑ j ∈ s, w j * Real.sin (2 * Real.pi * u j)⟩ : ℂ)
      = ∑ j ∈ s, (w j : ℂ) * exp ((2 * Real.pi * u j : ℝ) * I) := by
  apply Complex.ext
  · rw [Complex.re_sum]
    refine Finset.sum_congr rfl fun j _ => ?_
    rw [re_ofReal_mul, exp_ofReal_mul_I_re]
  · rw [Complex.im_sum]
    refine Finset.sum_congr rfl fun j _ => ?_
    rw [im_ofReal_mul, exp_ofReal_mul_I_im]

theorem polar (s : Finset ι) (hs : s.Nonempty) (w u : ι → ℝ) (hw : ∀ j ∈ s, 0 < w j) (p : ℝ)
    (h : ∀ j ∈ s, |u j - p| < 1 / 4) :
    ∃ r c : ℝ, 0 < r ∧ (∀ j ∈ s, |u j - c| < 1 / 2) ∧
      ∑ j ∈ s, (w j : ℂ) * exp ((2 * Real.pi * u j : ℝ) * I) = r * exp ((2 * Real.pi * c : ℝ) * I) := by
  set ζ : ℂ := ∑ j ∈ s, (w j : ℂ) * exp ((2 * Real.pi * (u j - p) : ℝ) * I) with hζ
  have hre : 0 < ζ.re := by
    rw [hζ, Complex.re_sum]
    refine Finset.sum_pos (fun j hj => ?_) hs
    rw [re_ofReal_mul, exp_ofReal_mul_I_re]
    refine mul_pos (hw j hj) (Real.cos_pos_of_mem_Ioo ⟨?_, ?_⟩)
    · have := (abs_lt.1 (h j hj)).1
      nlinarith [Real.pi_pos]
    · have := (abs_lt.1 (h j hj)).2
      nlinarith [Real.pi_pos]
  have hne : ζ ≠ 0 := fun h0 => by rw [h0] at hre; simp at hre
  have harg : |arg ζ| < Real.pi / 2 := Complex.abs_arg_lt_pi_div_two_iff.2 (Or.inl hre)
  refine ⟨‖ζ‖, p + arg ζ / (2 * Real.pi), norm_pos_iff.2 hne, fun j hj => ?_, ?_⟩
  · have h1 : |arg ζ / (2 * Real.pi)| < 1 / 4 := by
      rw [abs_div, abs_of_pos Real.two_pi_pos, div_lt_iff₀ Real.two_pi_pos]
      linarith
    have h2 : u j - (p + arg ζ / (2 * Real.pi)) = (u j - p) - arg ζ / (2 * Real.pi) := by ring
    rw [h2]
    calc |u j - p - arg ζ / (2 * Real.pi)| ≤ |u j - p| + |arg ζ / (2 * Real.pi)| := abs_sub _ _
      _ < 1 / 2 := by linarith [h j hj]
  · have h3 : ∑ j ∈ s, (w j : ℂ) * exp ((2 * Real.pi * u j : ℝ) * I) = ζ * exp ((2 * Real.pi * p : ℝ) * I) := by
      rw [hζ, Finset.sum_mul]
      refine Finset.sum_congr rfl fun j _ => ?_
      rw [mul_assoc (w j : ℂ), ← exp_add]
      congr 2
      push_cast
      ring
    have h4 : (2 * Real.pi * (p + arg ζ / (2 * Real.pi)) : ℝ) = arg ζ + 2 * Real.pi * p := by
      field_simp
      ring
    rw [h3, h4]
    conv_lhs => rw [← norm_mul_exp_arg_mul_I ζ]
    rw [mul_assoc, ← exp_add]
    congr 2
    push_cast
    ring

theorem arg_polar (r c : ℝ) (hr : 0 < r) :
    ∃ k : ℤ, arg (r * exp ((2 * Real.pi * c : ℝ) * I)) = (c + k) * (2 * Real.pi) := by
  rw [arg_real_mul _ hr, arg_exp_mul_I]
  refine ⟨-toIocDiv Real.two_pi_pos (-Real.pi) (2 * Real.pi * c), ?_⟩
  rw [toIocMod, zsmul_eq_mul]
  push_cast
  ring

/-- arctan2 of the mean sine and cosine. -/
theorem circular_mean (s : Finset ι) (hs : s.Nonempty) (w u : ι → ℝ) (hw : ∀ j ∈ s, 0 < w j) (p : ℝ)
    (h : ∀ j ∈ s, |u j - p| < 1 / 4) :
    ∃ (c : ℝ) (k : ℤ), (∀ j ∈ s, |u j - c| < 1 / 2) ∧
      arg ⟨∑ j ∈ s, w j * Real.cos (2 * Real.pi * u j), ∑ j ∈ s, w j * Real.sin (2 * Real.pi * u j)⟩
        = (c + k) * (2 * Real.pi) := by
  obtain ⟨r, c, hr, hc, he⟩ := polar s hs w u hw p h
  obtain ⟨k, hk⟩ := arg_polar r c hr
  exact ⟨c, k, hc, by rw [dir_sum, he, hk]⟩

/-- arctan2 of the negated mean sine and cosine: half a turn away. -/
theorem circular_mean_neg (s : Finset ι) (hs : s.Nonempty) (w u : ι → ℝ) (hw : ∀ j ∈ s, 0 < w j) (p : ℝ)
    (h : ∀ j ∈ s, |u j - p| < 1 / 4) :
    ∃ (c : ℝ) (k : ℤ), (∀ j ∈ s, |u j - c| < 1 / 2) ∧
      arg ⟨-∑ j ∈ s, w j * Real.cos (2 * Real.pi * u j), -∑ j ∈ s, w j * Real.sin (2 * Real.pi * u j)⟩
        = (c + k - 1 / 2) * (2 * Real.pi) := by
  obtain ⟨r, c, hr, hc, he⟩ := polar s hs w u hw p h
  obtain ⟨k, hk⟩ := arg_polar r (c - 1 / 2) hr
  refine ⟨c, k, hc, ?_⟩
  have h1 : (⟨-∑ j ∈ s, w j * Real.cos (2 * Real.pi * u j), -∑ j ∈ s, w j * Real.sin (2 * Real.pi * u j)⟩ : ℂ)
      = -⟨∑ j ∈ s, w j * Real.cos (2 * Real.pi * u j), ∑ j ∈ s, w j * Real.sin (2 * Real.pi * u j)⟩ := by
    apply Complex.ext <;> simp
  have h2 : (r : ℂ) * exp ((2 * Real.pi * (c - 1 / 2) : ℝ) * I) = -(r * exp ((2 * Real.pi * c : ℝ) * I)) := by
    have : ((2 * Real.pi * (c - 1 / 2) : ℝ) : ℂ) * I = (2 * Real.pi * c : ℝ) * I - Real.pi * I := by
      push_cast
      ring
    rw [this, exp_sub, exp_pi_mul_I]
    ring
  rw [h1, dir_sum, he, ← h2, hk]
  ring

#print axioms circular_mean
#print axioms circular_mean_neg
