/-- the documented conversion: dB -> linear, intensity <-> sigma-0, linear -> dB -/
noncomputable def tolin (dB : Bool) (v : ℝ) : ℝ := if dB then Real.exp (v / 10 * Real.log 10) else v
noncomputable def fromlin (dB : Bool) (v : ℝ) : ℝ := if dB then 10 * (Real.log v / Real.log 10) else v
noncomputable def tosig (sig0 : Bool) (inc v : ℝ) : ℝ := if sig0 then 4 * Real.pi * Real.cos inc * v else v
noncomputable def fromsig (sig0 : Bool) (inc v : ℝ) : ℝ := if sig0 then v / (4 * Real.pi * Real.cos inc) else v
/-- value `v` in the representation (fdB, fsig) expressed in (dB, sig) -/
noncomputable def conv (inc : ℝ) (dB sig fdB fsig : Bool) (v : ℝ) : ℝ :=
  fromlin dB (tosig sig inc (fromsig fsig inc (tolin fdB v)))

theorem c07_tolin_fromlin (dB : Bool) (v : ℝ) (h : 0 < v) : tolin dB (fromlin dB v) = v := by
  cases dB <;> simp [tolin, fromlin]
  have h10 : Real.log 10 ≠ 0 := ne_of_gt (Real.log_pos (by norm_num))
  rw [div_mul_cancel₀ _ h10, Real.exp_log h]

theorem c07_fromlin_tolin (dB : Bool) (v : ℝ) : fromlin dB (tolin dB v) = v := by
  cases dB <;> simp [tolin, fromlin]
  have h10 : Real.log 10 ≠ 0 := ne_of_gt (Real.log_pos (by norm_num))
  field_simp

theorem c07_tosig_fromsig (s : Bool) (inc v : ℝ) (h : 0 < Real.cos inc) : tosig s inc (fromsig s inc v) = v := by
  cases s <;> simp [tosig, fromsig]
  have := ne_of_gt h
  field_simp

theorem c07_fromsig_tosig (s : Bool) (inc v : ℝ) (h : 0 < Real.cos inc) : fromsig s inc (tosig s inc v) = v := by
  cases s <;> simp [tosig, fromsig]
  have := ne_of_gt h
  field_simp

theorem c07_pos_sig (s fs : Bool) (inc v : ℝ) (h : 0 < Real.cos inc) (hv : 0 < v) : 0 < tosig s inc (fromsig fs inc v) := by
  cases s <;> cases fs <;> simp [tosig, fromsig] <;> positivity

theorem c07_pos_lin (dB : Bool) (v : ℝ) (h : dB = false → 0 < v) : 0 < tolin dB v := by
  cases dB <;> simp [tolin]
  · exact h rfl
  · exact Real.exp_pos _

/-- converting to the same representation is the identity -/
theorem c07_identity (inc : ℝ) (dB sig : Bool) (v : ℝ) (h : 0 < Real.cos inc) : conv inc dB sig dB sig v = v := by
  unfold conv
  rw [c07_tosig_fromsig _ _ _ h, c07_fromlin_tolin]

/-- converting over any intermediate representation is the direct conversion -/
theorem c07_compose (inc : ℝ) (dB sig mdB msig fdB fsig : Bool) (v : ℝ) (h : 0 < Real.cos inc)
    (hv : fdB = false → 0 < v) : conv inc dB sig mdB msig (conv inc mdB msig fdB fsig v) = conv inc dB sig fdB fsig v := by
  unfold conv
  have hp := c07_pos_lin fdB v hv
  rw [c07_tolin_fromlin _ _ (c07_pos_sig _ _ _ _ h hp), c07_fromsig_tosig _ _ _ h]

/-- there and back again -/
theorem c07_roundtrip (inc : ℝ) (dB sig fdB fsig : Bool) (v : ℝ) (h : 0 < Real.cos inc)
    (hv : fdB = false → 0 < v) : conv inc fdB fsig dB sig (conv inc dB sig fdB fsig v) = v := by
  rw [c07_compose _ _ _ _ _ _ _ _ h hv, c07_identity _ _ _ _ h]

/-- in linear units the conversion is a multiplication by 4 pi cos(inc) or its inverse -/
theorem c07_linear (inc v : ℝ) : conv inc false true false false v = 4 * Real.pi * Real.cos inc * v ∧
    conv inc false false false true v = v / (4 * Real.pi * Real.cos inc) := by
  simp [conv, tolin, fromlin, tosig, fromsig]
