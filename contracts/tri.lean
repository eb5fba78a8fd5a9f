/-- Triangular probing of a table of 2^k buckets visits every bucket: the
    offsets T(s) = s(s+1)/2, s < 2^k, are different modulo 2^k.  (Hence, having
    2^k different values below 2^k, they are all of them, from any start.) -/
theorem tri (k a b : Nat) (hab : a < b) (hb : b < 2 ^ k)
    (h : (a * (a + 1) / 2) % 2 ^ k = (b * (b + 1) / 2) % 2 ^ k) : False := by
  obtain ⟨d, rfl⟩ : ∃ d, b = a + d := ⟨b - a, by omega⟩
  have even2 : ∀ x : Nat, x * (x + 1) % 2 = 0 := by
    intro x
    rcases Nat.mod_two_eq_zero_or_one x with h | h
    · rw [Nat.mul_mod, h]; simp
    · rw [Nat.mul_mod, show (x + 1) % 2 = 0 by omega]; simp
  have ha2 := even2 a
  have hb2 := even2 (a + d)
  have hexp : (a + d) * (a + d + 1) = a * (a + 1) + d * (2 * a + d + 1) := by
    simp only [Nat.add_mul, Nat.mul_add, Nat.mul_one]
    have := Nat.mul_comm d a
    have : d * (2 * a) = 2 * (d * a) := by rw [Nat.mul_left_comm]
    omega
  have hdvd : 2 ^ (k + 1) ∣ d * (2 * a + d + 1) := by
    have h1 : 2 ^ k ∣ (a + d) * (a + d + 1) / 2 - a * (a + 1) / 2 :=
      ⟨(a + d) * (a + d + 1) / 2 / 2 ^ k - a * (a + 1) / 2 / 2 ^ k, by
        have e1 := Nat.div_add_mod ((a + d) * (a + d + 1) / 2) (2 ^ k)
        have e2 := Nat.div_add_mod (a * (a + 1) / 2) (2 ^ k)
        rw [Nat.mul_sub]
        omega⟩
    obtain ⟨c, hc⟩ := h1
    refine ⟨c, ?_⟩
    have : 2 ^ (k + 1) * c = 2 * (2 ^ k * c) := by rw [Nat.pow_succ, Nat.mul_comm (2 ^ k) 2, Nat.mul_assoc]
    omega
  have hp : 2 ^ (k + 1) = 2 * 2 ^ k := by rw [Nat.pow_succ, Nat.mul_comm]
  have hodd : ∀ x : Nat, x % 2 = 1 → Nat.Coprime (2 ^ (k + 1)) x := by
    intro x hx
    apply Nat.Coprime.pow_left
    have := Nat.gcd_rec 2 x
    rw [Nat.coprime_iff_gcd_eq_one, this, hx]
    simp
  rcases Nat.mod_two_eq_zero_or_one d with hd | hd
  · have := (hodd (2 * a + d + 1) (by omega)).dvd_of_dvd_mul_right hdvd
    have := Nat.le_of_dvd (by omega) this
    omega
  · have := (hodd d hd).dvd_of_dvd_mul_left hdvd
    have := Nat.le_of_dvd (by omega) this
    omega
#print axioms tri
