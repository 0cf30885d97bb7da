/-- numbers that are concatenated as zero-padded decimals differ if any part differs -/
theorem c09_padded (k a a' b b' : ℕ) (hb : b < 10 ^ k) (hb' : b' < 10 ^ k) (h : a * 10 ^ k + b = a' * 10 ^ k + b') : a = a' ∧ b = b' := by
  have hp : 0 < 10 ^ k := by positivity
  have h1 : (a * 10 ^ k + b) / 10 ^ k = a := by
    rw [mul_comm, Nat.mul_add_div hp, Nat.div_eq_of_lt hb, add_zero]
  have h2 : (a' * 10 ^ k + b') / 10 ^ k = a' := by
    rw [mul_comm, Nat.mul_add_div hp, Nat.div_eq_of_lt hb', add_zero]
  have ha : a = a' := by rw [← h1, ← h2, h]
  subst ha
  exact ⟨rfl, by omega⟩

/-- distributing the remainder: every date belongs to exactly one of the groups -/
theorem c09_sizes (n N : ℕ) (hN : 0 < N) (hn : N ≤ n) :
    ∑ i ∈ Finset.range (n / N), (N + ((n % N) / (n / N) + if i < (n % N) % (n / N) then 1 else 0)) = n := by
  have hk : 0 < n / N := Nat.div_pos hn hN
  have hlt : (n % N) % (n / N) < n / N := Nat.mod_lt _ hk
  have hs : ∑ i ∈ Finset.range (n / N), (if i < (n % N) % (n / N) then 1 else 0) = (n % N) % (n / N) := by
    rw [Finset.sum_ite]
    simp only [Finset.sum_const_zero, add_zero, Finset.sum_const, smul_eq_mul, mul_one]
    have : Finset.filter (fun i => i < (n % N) % (n / N)) (Finset.range (n / N)) = Finset.range ((n % N) % (n / N)) := by
      ext i; simp only [Finset.mem_filter, Finset.mem_range]; omega
    rw [this, Finset.card_range]
  rw [Finset.sum_add_distrib, Finset.sum_add_distrib, hs]
  simp only [Finset.sum_const, Finset.card_range, smul_eq_mul]
  have e1 := Nat.div_add_mod (n % N) (n / N)
  have e2 := Nat.div_add_mod n N
  calc n / N * N + (n / N * (n % N / (n / N)) + n % N % (n / N)) = n / N * N + n % N := by rw [e1]
    _ = n := by rw [mul_comm]; exact e2
