-- generated by tools/gen_pratt.py: the statement assumed as `axiom_primes` in specs/moduli.vt
import Mathlib.NumberTheory.LucasPrimality
import Mathlib.Tactic
import Mathlib.Tactic.NormNum.Prime

set_option linter.unusedSimpArgs false
set_option exponentiation.threshold 600

/-- a ^ k modulo p by repeated squaring (for k below 2 ^ f) -/
def powm (p a : ℕ) : ℕ → ℕ → ℕ
  | 0, _ => 1 % p
  | f + 1, k => bif k % 2 == 1 then (a * powm p (a * a % p) f (k / 2)) % p else powm p (a * a % p) f (k / 2)

theorem powm_eq (p : ℕ) : ∀ (f a k : ℕ), k < 2 ^ f → powm p a f k = a ^ k % p := by
  intro f
  induction f with
  | zero => intro a k h; have : k = 0 := by simpa using h
            subst this; simp [powm]
  | succ f ih =>
    intro a k h
    have h2 : k / 2 < 2 ^ f := by rw [pow_succ] at h; omega
    have e : a ^ k = a ^ (k % 2) * (a * a) ^ (k / 2) := by
      rw [← pow_two, ← pow_mul, ← pow_add, Nat.mod_add_div]
    unfold powm
    rw [ih _ _ h2]
    rcases Nat.mod_two_eq_zero_or_one k with r | r
    · rw [r] at e; simp only [r]; rw [e]; simp [← Nat.pow_mod]
    · rw [r] at e; simp only [r]; rw [e, ← Nat.pow_mod, pow_one]; simp

theorem lucas_nat (p a : ℕ) (h1 : 1 < p ∧ p < 2 ^ 300) (ha' : powm p a 300 (p - 1) = 1)
    (hd' : ∀ q : ℕ, q.Prime → q ∣ p - 1 → powm p a 300 ((p - 1) / q) ≠ 1) : p.Prime := by
  obtain ⟨h1, h3⟩ := h1
  have hk : ∀ k, k ≤ p - 1 → powm p a 300 k = a ^ k % p := fun k h => powm_eq p 300 a k (by omega)
  have ha : a ^ (p - 1) % p = 1 := by rw [← hk _ le_rfl]; exact ha'
  have hd : ∀ q : ℕ, q.Prime → q ∣ p - 1 → a ^ ((p - 1) / q) % p ≠ 1 := by
    intro q hq hqd; rw [← hk _ (Nat.div_le_self _ _)]; exact hd' q hq hqd
  have c : ∀ k : ℕ, ((a : ZMod p) ^ k = 1 ↔ a ^ k % p = 1) := by
    intro k
    have := ZMod.natCast_eq_natCast_iff' (a ^ k) 1 p
    rw [Nat.mod_eq_of_lt h1] at this
    push_cast at this
    exact this
  exact lucas_primality p a ((c _).2 ha) (fun q hq hqd => fun h => hd q hq hqd ((c _).1 h))

theorem pr_2 : Nat.Prime 2 := by norm_num
theorem pr_3 : Nat.Prime 3 := by norm_num
theorem pr_5 : Nat.Prime 5 := by norm_num
theorem pr_17 : Nat.Prime 17 := by norm_num
theorem pr_257 : Nat.Prime 257 := by norm_num
theorem pr_641 : Nat.Prime 641 := by norm_num
theorem pr_1531 : Nat.Prime 1531 := by norm_num
theorem pr_65537 : Nat.Prime 65537 := by norm_num
theorem pr_490463 : Nat.Prime 490463 := by norm_num
theorem pr_17449 : Nat.Prime 17449 := by norm_num
theorem pr_6700417 : Nat.Prime 6700417 := by
  refine lucas_nat 6700417 5 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 6700417 - 1 = 2 ^ 7 * 3 * 17449 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 (hq.dvd_of_dvd_pow hd)
    subst e; decide +kernel
  · have e : q = 3 := (Nat.prime_dvd_prime_iff_eq hq pr_3).1 hd
    subst e; decide +kernel
  · have e : q = 17449 := (Nat.prime_dvd_prime_iff_eq hq pr_17449).1 hd
    subst e; decide +kernel

theorem pr_2411 : Nat.Prime 2411 := by norm_num
theorem pr_53 : Nat.Prime 53 := by norm_num
theorem pr_173 : Nat.Prime 173 := by norm_num
theorem pr_197 : Nat.Prime 197 := by norm_num
theorem pr_3677 : Nat.Prime 3677 := by norm_num
theorem pr_66417393611 : Nat.Prime 66417393611 := by
  refine lucas_nat 66417393611 6 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 66417393611 - 1 = 2 * 5 * 53 * 173 * 197 * 3677 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd | hd | hd | hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 hd
    subst e; decide +kernel
  · have e : q = 5 := (Nat.prime_dvd_prime_iff_eq hq pr_5).1 hd
    subst e; decide +kernel
  · have e : q = 53 := (Nat.prime_dvd_prime_iff_eq hq pr_53).1 hd
    subst e; decide +kernel
  · have e : q = 173 := (Nat.prime_dvd_prime_iff_eq hq pr_173).1 hd
    subst e; decide +kernel
  · have e : q = 197 := (Nat.prime_dvd_prime_iff_eq hq pr_197).1 hd
    subst e; decide +kernel
  · have e : q = 3677 := (Nat.prime_dvd_prime_iff_eq hq pr_3677).1 hd
    subst e; decide +kernel

theorem pr_11290956913871 : Nat.Prime 11290956913871 := by
  refine lucas_nat 11290956913871 13 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 11290956913871 - 1 = 2 * 5 * 17 * 66417393611 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd | hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 hd
    subst e; decide +kernel
  · have e : q = 5 := (Nat.prime_dvd_prime_iff_eq hq pr_5).1 hd
    subst e; decide +kernel
  · have e : q = 17 := (Nat.prime_dvd_prime_iff_eq hq pr_17).1 hd
    subst e; decide +kernel
  · have e : q = 66417393611 := (Nat.prime_dvd_prime_iff_eq hq pr_66417393611).1 hd
    subst e; decide +kernel

theorem pr_7 : Nat.Prime 7 := by norm_num
theorem pr_11 : Nat.Prime 11 := by norm_num
theorem pr_23 : Nat.Prime 23 := by norm_num
theorem pr_107 : Nat.Prime 107 := by norm_num
theorem pr_3769 : Nat.Prime 3769 := by norm_num
theorem pr_204061199 : Nat.Prime 204061199 := by
  refine lucas_nat 204061199 11 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 204061199 - 1 = 2 * 11 * 23 * 107 * 3769 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd | hd | hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 hd
    subst e; decide +kernel
  · have e : q = 11 := (Nat.prime_dvd_prime_iff_eq hq pr_11).1 hd
    subst e; decide +kernel
  · have e : q = 23 := (Nat.prime_dvd_prime_iff_eq hq pr_23).1 hd
    subst e; decide +kernel
  · have e : q = 107 := (Nat.prime_dvd_prime_iff_eq hq pr_107).1 hd
    subst e; decide +kernel
  · have e : q = 3769 := (Nat.prime_dvd_prime_iff_eq hq pr_3769).1 hd
    subst e; decide +kernel

theorem pr_34282281433 : Nat.Prime 34282281433 := by
  refine lucas_nat 34282281433 17 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 34282281433 - 1 = 2 ^ 3 * 3 * 7 * 204061199 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd | hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 (hq.dvd_of_dvd_pow hd)
    subst e; decide +kernel
  · have e : q = 3 := (Nat.prime_dvd_prime_iff_eq hq pr_3).1 hd
    subst e; decide +kernel
  · have e : q = 7 := (Nat.prime_dvd_prime_iff_eq hq pr_7).1 hd
    subst e; decide +kernel
  · have e : q = 204061199 := (Nat.prime_dvd_prime_iff_eq hq pr_204061199).1 hd
    subst e; decide +kernel

theorem pr_18169 : Nat.Prime 18169 := by norm_num
theorem pr_704251 : Nat.Prime 704251 := by norm_num
theorem pr_78283 : Nat.Prime 78283 := by norm_num
theorem pr_46076956964474543 : Nat.Prime 46076956964474543 := by
  refine lucas_nat 46076956964474543 5 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 46076956964474543 - 1 = 2 * 23 * 18169 * 704251 * 78283 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd | hd | hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 hd
    subst e; decide +kernel
  · have e : q = 23 := (Nat.prime_dvd_prime_iff_eq hq pr_23).1 hd
    subst e; decide +kernel
  · have e : q = 18169 := (Nat.prime_dvd_prime_iff_eq hq pr_18169).1 hd
    subst e; decide +kernel
  · have e : q = 704251 := (Nat.prime_dvd_prime_iff_eq hq pr_704251).1 hd
    subst e; decide +kernel
  · have e : q = 78283 := (Nat.prime_dvd_prime_iff_eq hq pr_78283).1 hd
    subst e; decide +kernel

theorem pr_774023187263532362759620327192479577272145303 : Nat.Prime 774023187263532362759620327192479577272145303 := by
  refine lucas_nat 774023187263532362759620327192479577272145303 3 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 774023187263532362759620327192479577272145303 - 1 = 2 * 3 ^ 2 * 2411 * 11290956913871 * 34282281433 * 46076956964474543 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd | hd | hd | hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 hd
    subst e; decide +kernel
  · have e : q = 3 := (Nat.prime_dvd_prime_iff_eq hq pr_3).1 (hq.dvd_of_dvd_pow hd)
    subst e; decide +kernel
  · have e : q = 2411 := (Nat.prime_dvd_prime_iff_eq hq pr_2411).1 hd
    subst e; decide +kernel
  · have e : q = 11290956913871 := (Nat.prime_dvd_prime_iff_eq hq pr_11290956913871).1 hd
    subst e; decide +kernel
  · have e : q = 34282281433 := (Nat.prime_dvd_prime_iff_eq hq pr_34282281433).1 hd
    subst e; decide +kernel
  · have e : q = 46076956964474543 := (Nat.prime_dvd_prime_iff_eq hq pr_46076956964474543).1 hd
    subst e; decide +kernel

theorem pr_835945042244614951780389953367877943453916927241 : Nat.Prime 835945042244614951780389953367877943453916927241 := by
  refine lucas_nat 835945042244614951780389953367877943453916927241 11 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 835945042244614951780389953367877943453916927241 - 1 = 2 ^ 3 * 3 ^ 3 * 5 * 774023187263532362759620327192479577272145303 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd | hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 (hq.dvd_of_dvd_pow hd)
    subst e; decide +kernel
  · have e : q = 3 := (Nat.prime_dvd_prime_iff_eq hq pr_3).1 (hq.dvd_of_dvd_pow hd)
    subst e; decide +kernel
  · have e : q = 5 := (Nat.prime_dvd_prime_iff_eq hq pr_5).1 hd
    subst e; decide +kernel
  · have e : q = 774023187263532362759620327192479577272145303 := (Nat.prime_dvd_prime_iff_eq hq pr_774023187263532362759620327192479577272145303).1 hd
    subst e; decide +kernel

theorem pr_115792089210356248762697446949407573530086143415290314195533631308867097853951 : Nat.Prime 115792089210356248762697446949407573530086143415290314195533631308867097853951 := by
  refine lucas_nat 115792089210356248762697446949407573530086143415290314195533631308867097853951 6 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 115792089210356248762697446949407573530086143415290314195533631308867097853951 - 1 = 2 * 3 * 5 ^ 2 * 17 * 257 * 641 * 1531 * 65537 * 490463 * 6700417 * 835945042244614951780389953367877943453916927241 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd | hd | hd | hd | hd | hd | hd | hd | hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 hd
    subst e; decide +kernel
  · have e : q = 3 := (Nat.prime_dvd_prime_iff_eq hq pr_3).1 hd
    subst e; decide +kernel
  · have e : q = 5 := (Nat.prime_dvd_prime_iff_eq hq pr_5).1 (hq.dvd_of_dvd_pow hd)
    subst e; decide +kernel
  · have e : q = 17 := (Nat.prime_dvd_prime_iff_eq hq pr_17).1 hd
    subst e; decide +kernel
  · have e : q = 257 := (Nat.prime_dvd_prime_iff_eq hq pr_257).1 hd
    subst e; decide +kernel
  · have e : q = 641 := (Nat.prime_dvd_prime_iff_eq hq pr_641).1 hd
    subst e; decide +kernel
  · have e : q = 1531 := (Nat.prime_dvd_prime_iff_eq hq pr_1531).1 hd
    subst e; decide +kernel
  · have e : q = 65537 := (Nat.prime_dvd_prime_iff_eq hq pr_65537).1 hd
    subst e; decide +kernel
  · have e : q = 490463 := (Nat.prime_dvd_prime_iff_eq hq pr_490463).1 hd
    subst e; decide +kernel
  · have e : q = 6700417 := (Nat.prime_dvd_prime_iff_eq hq pr_6700417).1 hd
    subst e; decide +kernel
  · have e : q = 835945042244614951780389953367877943453916927241 := (Nat.prime_dvd_prime_iff_eq hq pr_835945042244614951780389953367877943453916927241).1 hd
    subst e; decide +kernel

theorem pr_71 : Nat.Prime 71 := by norm_num
theorem pr_131 : Nat.Prime 131 := by norm_num
theorem pr_373 : Nat.Prime 373 := by norm_num
theorem pr_3407 : Nat.Prime 3407 := by norm_num
theorem pr_38189 : Nat.Prime 38189 := by norm_num
theorem pr_126241 : Nat.Prime 126241 := by norm_num
theorem pr_19 : Nat.Prime 19 := by norm_num
theorem pr_104471 : Nat.Prime 104471 := by norm_num
theorem pr_3969899 : Nat.Prime 3969899 := by
  refine lucas_nat 3969899 2 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 3969899 - 1 = 2 * 19 * 104471 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 hd
    subst e; decide +kernel
  · have e : q = 19 := (Nat.prime_dvd_prime_iff_eq hq pr_19).1 hd
    subst e; decide +kernel
  · have e : q = 104471 := (Nat.prime_dvd_prime_iff_eq hq pr_104471).1 hd
    subst e; decide +kernel

theorem pr_1002328039319 : Nat.Prime 1002328039319 := by
  refine lucas_nat 1002328039319 19 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 1002328039319 - 1 = 2 * 126241 * 3969899 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 hd
    subst e; decide +kernel
  · have e : q = 126241 := (Nat.prime_dvd_prime_iff_eq hq pr_126241).1 hd
    subst e; decide +kernel
  · have e : q = 3969899 := (Nat.prime_dvd_prime_iff_eq hq pr_3969899).1 hd
    subst e; decide +kernel

theorem pr_229 : Nat.Prime 229 := by norm_num
theorem pr_1201 : Nat.Prime 1201 := by norm_num
theorem pr_9350987 : Nat.Prime 9350987 := by
  refine lucas_nat 9350987 2 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 9350987 - 1 = 2 * 17 * 229 * 1201 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd | hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 hd
    subst e; decide +kernel
  · have e : q = 17 := (Nat.prime_dvd_prime_iff_eq hq pr_17).1 hd
    subst e; decide +kernel
  · have e : q = 229 := (Nat.prime_dvd_prime_iff_eq hq pr_229).1 hd
    subst e; decide +kernel
  · have e : q = 1201 := (Nat.prime_dvd_prime_iff_eq hq pr_1201).1 hd
    subst e; decide +kernel

theorem pr_187019741 : Nat.Prime 187019741 := by
  refine lucas_nat 187019741 2 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 187019741 - 1 = 2 ^ 2 * 5 * 9350987 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 (hq.dvd_of_dvd_pow hd)
    subst e; decide +kernel
  · have e : q = 5 := (Nat.prime_dvd_prime_iff_eq hq pr_5).1 hd
    subst e; decide +kernel
  · have e : q = 9350987 := (Nat.prime_dvd_prime_iff_eq hq pr_9350987).1 hd
    subst e; decide +kernel

theorem pr_29 : Nat.Prime 29 := by norm_num
theorem pr_311 : Nat.Prime 311 := by norm_num
theorem pr_311245691 : Nat.Prime 311245691 := by
  refine lucas_nat 311245691 2 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 311245691 - 1 = 2 * 5 * 7 * 17 * 29 ^ 2 * 311 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd | hd | hd | hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 hd
    subst e; decide +kernel
  · have e : q = 5 := (Nat.prime_dvd_prime_iff_eq hq pr_5).1 hd
    subst e; decide +kernel
  · have e : q = 7 := (Nat.prime_dvd_prime_iff_eq hq pr_7).1 hd
    subst e; decide +kernel
  · have e : q = 17 := (Nat.prime_dvd_prime_iff_eq hq pr_17).1 hd
    subst e; decide +kernel
  · have e : q = 29 := (Nat.prime_dvd_prime_iff_eq hq pr_29).1 (hq.dvd_of_dvd_pow hd)
    subst e; decide +kernel
  · have e : q = 311 := (Nat.prime_dvd_prime_iff_eq hq pr_311).1 hd
    subst e; decide +kernel

theorem pr_622491383 : Nat.Prime 622491383 := by
  refine lucas_nat 622491383 5 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 622491383 - 1 = 2 * 311245691 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 hd
    subst e; decide +kernel
  · have e : q = 311245691 := (Nat.prime_dvd_prime_iff_eq hq pr_311245691).1 hd
    subst e; decide +kernel

theorem pr_1297 : Nat.Prime 1297 := by norm_num
theorem pr_16879 : Nat.Prime 16879 := by norm_num
theorem pr_43 : Nat.Prime 43 := by norm_num
theorem pr_127 : Nat.Prime 127 := by norm_num
theorem pr_3023 : Nat.Prime 3023 := by norm_num
theorem pr_41 : Nat.Prime 41 := by norm_num
theorem pr_155317 : Nat.Prime 155317 := by norm_num
theorem pr_191039911 : Nat.Prime 191039911 := by
  refine lucas_nat 191039911 3 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 191039911 - 1 = 2 * 3 * 5 * 41 * 155317 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd | hd | hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 hd
    subst e; decide +kernel
  · have e : q = 3 := (Nat.prime_dvd_prime_iff_eq hq pr_3).1 hd
    subst e; decide +kernel
  · have e : q = 5 := (Nat.prime_dvd_prime_iff_eq hq pr_5).1 hd
    subst e; decide +kernel
  · have e : q = 41 := (Nat.prime_dvd_prime_iff_eq hq pr_41).1 hd
    subst e; decide +kernel
  · have e : q = 155317 := (Nat.prime_dvd_prime_iff_eq hq pr_155317).1 hd
    subst e; decide +kernel

theorem pr_208150935158385979 : Nat.Prime 208150935158385979 := by
  refine lucas_nat 208150935158385979 2 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 208150935158385979 - 1 = 2 * 3 * 11 * 43 * 127 * 3023 * 191039911 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd | hd | hd | hd | hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 hd
    subst e; decide +kernel
  · have e : q = 3 := (Nat.prime_dvd_prime_iff_eq hq pr_3).1 hd
    subst e; decide +kernel
  · have e : q = 11 := (Nat.prime_dvd_prime_iff_eq hq pr_11).1 hd
    subst e; decide +kernel
  · have e : q = 43 := (Nat.prime_dvd_prime_iff_eq hq pr_43).1 hd
    subst e; decide +kernel
  · have e : q = 127 := (Nat.prime_dvd_prime_iff_eq hq pr_127).1 hd
    subst e; decide +kernel
  · have e : q = 3023 := (Nat.prime_dvd_prime_iff_eq hq pr_3023).1 hd
    subst e; decide +kernel
  · have e : q = 191039911 := (Nat.prime_dvd_prime_iff_eq hq pr_191039911).1 hd
    subst e; decide +kernel

theorem pr_2624747550333869278416773953 : Nat.Prime 2624747550333869278416773953 := by
  refine lucas_nat 2624747550333869278416773953 7 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 2624747550333869278416773953 - 1 = 2 ^ 6 * 3 ^ 2 * 1297 * 16879 * 208150935158385979 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd | hd | hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 (hq.dvd_of_dvd_pow hd)
    subst e; decide +kernel
  · have e : q = 3 := (Nat.prime_dvd_prime_iff_eq hq pr_3).1 (hq.dvd_of_dvd_pow hd)
    subst e; decide +kernel
  · have e : q = 1297 := (Nat.prime_dvd_prime_iff_eq hq pr_1297).1 hd
    subst e; decide +kernel
  · have e : q = 16879 := (Nat.prime_dvd_prime_iff_eq hq pr_16879).1 hd
    subst e; decide +kernel
  · have e : q = 208150935158385979 := (Nat.prime_dvd_prime_iff_eq hq pr_208150935158385979).1 hd
    subst e; decide +kernel

theorem pr_115792089210356248762697446949407573529996955224135760342422259061068512044369 : Nat.Prime 115792089210356248762697446949407573529996955224135760342422259061068512044369 := by
  refine lucas_nat 115792089210356248762697446949407573529996955224135760342422259061068512044369 7 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 115792089210356248762697446949407573529996955224135760342422259061068512044369 - 1 = 2 ^ 4 * 3 * 71 * 131 * 373 * 3407 * 17449 * 38189 * 1002328039319 * 187019741 * 622491383 * 2624747550333869278416773953 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd | hd | hd | hd | hd | hd | hd | hd | hd | hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 (hq.dvd_of_dvd_pow hd)
    subst e; decide +kernel
  · have e : q = 3 := (Nat.prime_dvd_prime_iff_eq hq pr_3).1 hd
    subst e; decide +kernel
  · have e : q = 71 := (Nat.prime_dvd_prime_iff_eq hq pr_71).1 hd
    subst e; decide +kernel
  · have e : q = 131 := (Nat.prime_dvd_prime_iff_eq hq pr_131).1 hd
    subst e; decide +kernel
  · have e : q = 373 := (Nat.prime_dvd_prime_iff_eq hq pr_373).1 hd
    subst e; decide +kernel
  · have e : q = 3407 := (Nat.prime_dvd_prime_iff_eq hq pr_3407).1 hd
    subst e; decide +kernel
  · have e : q = 17449 := (Nat.prime_dvd_prime_iff_eq hq pr_17449).1 hd
    subst e; decide +kernel
  · have e : q = 38189 := (Nat.prime_dvd_prime_iff_eq hq pr_38189).1 hd
    subst e; decide +kernel
  · have e : q = 1002328039319 := (Nat.prime_dvd_prime_iff_eq hq pr_1002328039319).1 hd
    subst e; decide +kernel
  · have e : q = 187019741 := (Nat.prime_dvd_prime_iff_eq hq pr_187019741).1 hd
    subst e; decide +kernel
  · have e : q = 622491383 := (Nat.prime_dvd_prime_iff_eq hq pr_622491383).1 hd
    subst e; decide +kernel
  · have e : q = 2624747550333869278416773953 := (Nat.prime_dvd_prime_iff_eq hq pr_2624747550333869278416773953).1 hd
    subst e; decide +kernel

theorem pr_19403 : Nat.Prime 19403 := by norm_num
theorem pr_32985101 : Nat.Prime 32985101 := by
  refine lucas_nat 32985101 2 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 32985101 - 1 = 2 ^ 2 * 5 ^ 2 * 17 * 19403 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd | hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 (hq.dvd_of_dvd_pow hd)
    subst e; decide +kernel
  · have e : q = 5 := (Nat.prime_dvd_prime_iff_eq hq pr_5).1 (hq.dvd_of_dvd_pow hd)
    subst e; decide +kernel
  · have e : q = 17 := (Nat.prime_dvd_prime_iff_eq hq pr_17).1 hd
    subst e; decide +kernel
  · have e : q = 19403 := (Nat.prime_dvd_prime_iff_eq hq pr_19403).1 hd
    subst e; decide +kernel

theorem pr_73 : Nat.Prime 73 := by norm_num
theorem pr_487 : Nat.Prime 487 := by norm_num
theorem pr_461 : Nat.Prime 461 := by norm_num
theorem pr_3134801 : Nat.Prime 3134801 := by
  refine lucas_nat 3134801 3 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 3134801 - 1 = 2 ^ 4 * 5 ^ 2 * 17 * 461 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd | hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 (hq.dvd_of_dvd_pow hd)
    subst e; decide +kernel
  · have e : q = 5 := (Nat.prime_dvd_prime_iff_eq hq pr_5).1 (hq.dvd_of_dvd_pow hd)
    subst e; decide +kernel
  · have e : q = 17 := (Nat.prime_dvd_prime_iff_eq hq pr_17).1 hd
    subst e; decide +kernel
  · have e : q = 461 := (Nat.prime_dvd_prime_iff_eq hq pr_461).1 hd
    subst e; decide +kernel

theorem pr_13 : Nat.Prime 13 := by norm_num
theorem pr_4889 : Nat.Prime 4889 := by norm_num
theorem pr_37003 : Nat.Prime 37003 := by norm_num
theorem pr_221101 : Nat.Prime 221101 := by norm_num
theorem pr_4024685905107147541 : Nat.Prime 4024685905107147541 := by
  refine lucas_nat 4024685905107147541 2 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 4024685905107147541 - 1 = 2 ^ 2 * 3 ^ 2 * 5 * 13 * 43 * 4889 * 37003 * 221101 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd | hd | hd | hd | hd | hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 (hq.dvd_of_dvd_pow hd)
    subst e; decide +kernel
  · have e : q = 3 := (Nat.prime_dvd_prime_iff_eq hq pr_3).1 (hq.dvd_of_dvd_pow hd)
    subst e; decide +kernel
  · have e : q = 5 := (Nat.prime_dvd_prime_iff_eq hq pr_5).1 hd
    subst e; decide +kernel
  · have e : q = 13 := (Nat.prime_dvd_prime_iff_eq hq pr_13).1 hd
    subst e; decide +kernel
  · have e : q = 43 := (Nat.prime_dvd_prime_iff_eq hq pr_43).1 hd
    subst e; decide +kernel
  · have e : q = 4889 := (Nat.prime_dvd_prime_iff_eq hq pr_4889).1 hd
    subst e; decide +kernel
  · have e : q = 37003 := (Nat.prime_dvd_prime_iff_eq hq pr_37003).1 hd
    subst e; decide +kernel
  · have e : q = 221101 := (Nat.prime_dvd_prime_iff_eq hq pr_221101).1 hd
    subst e; decide +kernel

theorem pr_897064739519922787230182993783 : Nat.Prime 897064739519922787230182993783 := by
  refine lucas_nat 897064739519922787230182993783 5 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 897064739519922787230182993783 - 1 = 2 * 73 * 487 * 3134801 * 4024685905107147541 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd | hd | hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 hd
    subst e; decide +kernel
  · have e : q = 73 := (Nat.prime_dvd_prime_iff_eq hq pr_73).1 hd
    subst e; decide +kernel
  · have e : q = 487 := (Nat.prime_dvd_prime_iff_eq hq pr_487).1 hd
    subst e; decide +kernel
  · have e : q = 3134801 := (Nat.prime_dvd_prime_iff_eq hq pr_3134801).1 hd
    subst e; decide +kernel
  · have e : q = 4024685905107147541 := (Nat.prime_dvd_prime_iff_eq hq pr_4024685905107147541).1 hd
    subst e; decide +kernel

theorem pr_1361129467683753853853498429727072845819 : Nat.Prime 1361129467683753853853498429727072845819 := by
  refine lucas_nat 1361129467683753853853498429727072845819 2 (by norm_num) (by decide +kernel) ?_
  intro q hq hd
  have h : 1361129467683753853853498429727072845819 - 1 = 2 * 23 * 32985101 * 897064739519922787230182993783 := by norm_num
  rw [h] at hd
  simp only [hq.dvd_mul, or_assoc] at hd
  rcases hd with hd | hd | hd | hd
  · have e : q = 2 := (Nat.prime_dvd_prime_iff_eq hq pr_2).1 hd
    subst e; decide +kernel
  · have e : q = 23 := (Nat.prime_dvd_prime_iff_eq hq pr_23).1 hd
    subst e; decide +kernel
  · have e : q = 32985101 := (Nat.prime_dvd_prime_iff_eq hq pr_32985101).1 hd
    subst e; decide +kernel
  · have e : q = 897064739519922787230182993783 := (Nat.prime_dvd_prime_iff_eq hq pr_897064739519922787230182993783).1 hd
    subst e; decide +kernel

/-- the statement assumed as `axiom_primes` in specs/moduli.vt: no d with 1 < d < m divides m -/
theorem no_divisor (m : ℕ) (h : m.Prime) : 1 < (m : ℤ) ∧ ∀ d : ℤ, 1 < d → d < m → (m : ℤ) % d ≠ 0 := by
  refine ⟨by exact_mod_cast h.one_lt, fun d h1 h2 h3 => ?_⟩
  lift d to ℕ using by omega
  have hd : d ∣ m := by exact_mod_cast Int.dvd_of_emod_eq_zero h3
  rcases (Nat.dvd_prime h).1 hd with e | e <;> omega

def prime256 : ℤ := 2 ^ 256 - 2 ^ 224 + 2 ^ 192 + 2 ^ 96 - 1
def order256 : ℤ := 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
def prime1305 : ℤ := 2 ^ 130 - 5
def isPrime (m : ℤ) : Prop := 1 < m ∧ ∀ d : ℤ, 1 < d → d < m → m % d ≠ 0
theorem axiom_primes : isPrime prime256 ∧ isPrime order256 ∧ isPrime prime1305 := by
  refine ⟨?_, ?_, ?_⟩
  · have h := no_divisor _ pr_115792089210356248762697446949407573530086143415290314195533631308867097853951; unfold prime256 isPrime; norm_num at h ⊢; exact h
  · have h := no_divisor _ pr_115792089210356248762697446949407573529996955224135760342422259061068512044369; unfold order256 isPrime; norm_num at h ⊢; exact h
  · have h := no_divisor _ pr_1361129467683753853853498429727072845819; unfold prime1305 isPrime; norm_num at h ⊢; exact h
#print axioms axiom_primes
