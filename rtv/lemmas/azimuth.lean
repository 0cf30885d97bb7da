open Real intervalIntegral in
theorem rtv_cos_step (n : ℕ) : ∫ x in (0:ℝ)..(2*π), cos x ^ (n+2) = (n+1)/(n+2) * ∫ x in (0:ℝ)..(2*π), cos x ^ n := by
  rw [integral_cos_pow]; simp [sin_two_pi]
open Real intervalIntegral in
theorem rtv_cos_odd (m : ℕ) : ∫ x in (0:ℝ)..(2*π), cos x ^ (2*m+1) = 0 := by
  induction m with
  | zero => simp
  | succ k ih =>
    have := rtv_cos_step (2*k+1)
    rw [show 2*(k+1)+1 = 2*k+1+2 by ring, this, ih, mul_zero]
open Real intervalIntegral in
/-- the closed form of the even azimuth integrals -/
noncomputable def rtvQ (m n : ℕ) : ℝ :=
  ((2*m).factorial * (2*n).factorial : ℝ) / (4^(m+n) * m.factorial * n.factorial * (m+n).factorial)
theorem rtvQ_n (m n : ℕ) : rtvQ m (n+1) = rtvQ m n * (2*n+1) / (2*(m+n+1)) := by
  unfold rtvQ
  rw [show 2*(n+1) = 2*n+1+1 by ring, show m+(n+1) = m+n+1 by ring]
  simp only [Nat.factorial_succ]
  have h1 : ((m.factorial:ℕ):ℝ) ≠ 0 := by positivity
  have h2 : ((n.factorial:ℕ):ℝ) ≠ 0 := by positivity
  have h3 : (((m+n).factorial:ℕ):ℝ) ≠ 0 := by positivity
  have h4 : ((n:ℝ)+1) ≠ 0 := by positivity
  have h5 : ((m:ℝ)+n+1) ≠ 0 := by positivity
  push_cast
  field_simp
  ring
theorem rtvQ_m (m n : ℕ) : rtvQ (m+1) n = rtvQ m n * (2*m+1) / (2*(m+n+1)) := by
  unfold rtvQ
  rw [show 2*(m+1) = 2*m+1+1 by ring, show m+1+n = m+n+1 by ring]
  simp only [Nat.factorial_succ]
  have h1 : ((m.factorial:ℕ):ℝ) ≠ 0 := by positivity
  have h2 : ((n.factorial:ℕ):ℝ) ≠ 0 := by positivity
  have h3 : (((m+n).factorial:ℕ):ℝ) ≠ 0 := by positivity
  have h4 : ((m:ℝ)+1) ≠ 0 := by positivity
  have h5 : ((m:ℝ)+n+1) ≠ 0 := by positivity
  push_cast
  field_simp
  ring
theorem rtvQ_rec (m n : ℕ) : rtvQ (m+1) n = rtvQ m n - rtvQ m (n+1) := by
  rw [rtvQ_m, rtvQ_n]
  have h5 : ((m:ℝ)+n+1) ≠ 0 := by positivity
  field_simp; ring
open Real intervalIntegral in
theorem rtv_cos_even (m : ℕ) : ∫ x in (0:ℝ)..(2*π), cos x ^ (2*m) = 2*π * rtvQ 0 m := by
  induction m with
  | zero => simp [rtvQ]
  | succ k ih =>
    rw [show 2*(k+1) = 2*k+2 by ring, rtv_cos_step (2*k), ih, rtvQ_n]
    have hk : ((k:ℝ)+1) ≠ 0 := by positivity
    push_cast
    rw [zero_add]
    field_simp
open Real intervalIntegral in
theorem rtv_step (a b : ℕ) : ∫ x in (0:ℝ)..(2*π), sin x ^ (a+2) * cos x ^ b =
    (∫ x in (0:ℝ)..(2*π), sin x ^ a * cos x ^ b) - ∫ x in (0:ℝ)..(2*π), sin x ^ a * cos x ^ (b+2) := by
  rw [← integral_sub]
  · congr 1; funext x
    have := sin_sq_add_cos_sq x
    rw [pow_add, pow_add, show sin x ^ 2 = 1 - cos x ^ 2 by linarith]; ring
  · exact (Continuous.intervalIntegrable (by fun_prop) _ _)
  · exact (Continuous.intervalIntegrable (by fun_prop) _ _)
open Real intervalIntegral in
theorem rtv_even (m : ℕ) : ∀ n : ℕ, ∫ x in (0:ℝ)..(2*π), sin x ^ (2*m) * cos x ^ (2*n) = 2*π * rtvQ m n := by
  induction m with
  | zero => intro n; simpa using rtv_cos_even n
  | succ k ih =>
    intro n
    rw [show 2*(k+1) = 2*k+2 by ring, rtv_step, show 2*n+2 = 2*(n+1) by ring, ih n, ih (n+1), rtvQ_rec]; ring
open Real intervalIntegral in
theorem rtv_sinodd (m b : ℕ) : ∫ x in (0:ℝ)..(2*π), sin x ^ (2*m+1) * cos x ^ b = 0 := by
  rw [integral_sin_pow_odd_mul_cos_pow]; simp
open Real intervalIntegral in
theorem rtv_cosodd (a n : ℕ) : ∫ x in (0:ℝ)..(2*π), sin x ^ a * cos x ^ (2*n+1) = 0 := by
  rw [integral_sin_pow_mul_cos_pow_odd]; simp
open Real intervalIntegral in
/-- linearity: the integral of a finite sum of monomials -/
theorem rtv_linear {ι : Type*} (s : Finset ι) (c : ι → ℝ) (a b : ι → ℕ) :
    ∫ x in (0:ℝ)..(2*π), ∑ i ∈ s, c i * (sin x ^ a i * cos x ^ b i) =
    ∑ i ∈ s, c i * ∫ x in (0:ℝ)..(2*π), sin x ^ a i * cos x ^ b i := by
  rw [integral_finset_sum]
  · simp
  · intro i _; exact (Continuous.intervalIntegrable (by fun_prop) _ _)
open Real intervalIntegral in
theorem rtv_scale (c : ℝ) (a b : ℕ) (J : ℝ) (h : ∫ x in (0:ℝ)..(2*π), sin x ^ a * cos x ^ b = J) :
    ∫ x in (0:ℝ)..(2*π), c * (sin x ^ a * cos x ^ b) = c * J := by
  rw [integral_const_mul, h]
theorem rtvQ_central (m : ℕ) : rtvQ 0 m = ((2:ℝ)^(2*m))⁻¹ * (Nat.choose (2*m) m : ℝ) := by
  have h : (Nat.choose (2*m) m : ℝ) = ((2*m).factorial : ℝ) / (m.factorial * m.factorial) := by
    rw [Nat.cast_choose ℝ (by omega : m ≤ 2*m), show 2*m - m = m by omega]
  unfold rtvQ
  rw [h, show (4:ℝ) = 2^2 by norm_num, ← pow_mul]
  have h2 : ((m.factorial:ℕ):ℝ) ≠ 0 := by positivity
  simp
  field_simp
