# writes lean/Primes.lean: the primality of the three moduli by Lucas certificates (needs sympy, so run with python3-vt)
from sympy import factorint
P = 2**256 - 2**224 + 2**192 + 2**96 - 1
N = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
Q = 2**130 - 5
out, done = [], set()
def cert(p):
    if p in done: return
    done.add(p)
    if p < 10**6:
        out.append(f"theorem pr_{p} : Nat.Prime {p} := by norm_num")
        return
    f = factorint(p - 1)
    for q in f: cert(q)
    g = next(g for g in range(2, 1000) if pow(g, p - 1, p) == 1 and all(pow(g, (p - 1) // q, p) != 1 for q in f))
    prod = " * ".join(f"{q}" if e == 1 else f"{q} ^ {e}" for q, e in f.items())
    out.append(f"theorem pr_{p} : Nat.Prime {p} := by\n"
               f"  refine lucas_nat {p} {g} (by norm_num) (by decide +kernel) ?_\n"
               f"  intro q hq hd\n"
               f"  have h : {p} - 1 = {prod} := by norm_num\n"
               f"  rw [h] at hd\n"
               f"  simp only [hq.dvd_mul, or_assoc] at hd\n"
               + ("  rcases hd with " + " | ".join("hd" for _ in f) + "\n")
               + "".join(f"  · have e : q = {q} := (Nat.prime_dvd_prime_iff_eq hq pr_{q}).1 " + ("hd" if e == 1 else "(hq.dvd_of_dvd_pow hd)") + "\n    subst e; decide +kernel\n"
                         for q, e in f.items()))
for m in (P, N, Q): cert(m)
print(f"""-- generated by tools/gen_pratt.py: the statement assumed as `axiom_primes` in specs/moduli.vt
import Mathlib.NumberTheory.LucasPrimality
import Mathlib.Tactic
import Mathlib.Tactic.NormNum.Prime

set_option linter.unusedSimpArgs false
set_option exponentiation.threshold 600

/-- a ^ k modulo p by repeated squaring (for k below 2 ^ f) -/
def powm (p a : ℕ) : ℕ → ℕ → ℕ
  | 0, _ => 1 % p
  | f + 1, k => bif k % 2 == 1 then (a * powm p (a * a % p) f (k / 2)) % p else powm p (a * a % p) f (k / 2)

theorem powm_eq (p : ℕ) : ∀ (f a k : ℕ), k < 2 ^ f → powm p a f k = a ^ k % p := by
  intro f
  induction f with
  | zero => intro a k h; have : k = 0 := by simpa using h
            subst this; simp [powm]
  | succ f ih =>
    intro a k h
    have h2 : k / 2 < 2 ^ f := by rw [pow_succ] at h; omega
    have e : a ^ k = a ^ (k % 2) * (a * a) ^ (k / 2) := by
      rw [← pow_two, ← pow_mul, ← pow_add, Nat.mod_add_div]
    unfold powm
    rw [ih _ _ h2]
    rcases Nat.mod_two_eq_zero_or_one k with r | r
    · rw [r] at e; simp only [r]; rw [e]; simp [← Nat.pow_mod]
    · rw [r] at e; simp only [r]; rw [e, ← Nat.pow_mod, pow_one]; simp

theorem lucas_nat (p a : ℕ) (h1 : 1 < p ∧ p < 2 ^ 300) (ha' : powm p a 300 (p - 1) = 1)
    (hd' : ∀ q : ℕ, q.Prime → q ∣ p - 1 → powm p a 300 ((p - 1) / q) ≠ 1) : p.Prime := by
  obtain ⟨h1, h3⟩ := h1
  have hk : ∀ k, k ≤ p - 1 → powm p a 300 k = a ^ k % p := fun k h => powm_eq p 300 a k (by omega)
  have ha : a ^ (p - 1) % p = 1 := by rw [← hk _ le_rfl]; exact ha'
  have hd : ∀ q : ℕ, q.Prime → q ∣ p - 1 → a ^ ((p - 1) / q) % p ≠ 1 := by
    intro q hq hqd; rw [← hk _ (Nat.div_le_self _ _)]; exact hd' q hq hqd
  have c : ∀ k : ℕ, ((a : ZMod p) ^ k = 1 ↔ a ^ k % p = 1) := by
    intro k
    have := ZMod.natCast_eq_natCast_iff' (a ^ k) 1 p
    rw [Nat.mod_eq_of_lt h1] at this
    push_cast at this
    exact this
  exact lucas_primality p a ((c _).2 ha) (fun q hq hqd => fun h => hd q hq hqd ((c _).1 h))

""" + "\n".join(out) + f"""
/-- the statement assumed as `axiom_primes` in specs/moduli.vt: no d with 1 < d < m divides m -/
theorem no_divisor (m : ℕ) (h : m.Prime) : 1 < (m : ℤ) ∧ ∀ d : ℤ, 1 < d → d < m → (m : ℤ) % d ≠ 0 := by
  refine ⟨by exact_mod_cast h.one_lt, fun d h1 h2 h3 => ?_⟩
  lift d to ℕ using by omega
  have hd : d ∣ m := by exact_mod_cast Int.dvd_of_emod_eq_zero h3
  rcases (Nat.dvd_prime h).1 hd with e | e <;> omega

def prime256 : ℤ := 2 ^ 256 - 2 ^ 224 + 2 ^ 192 + 2 ^ 96 - 1
def order256 : ℤ := 0x{N:x}
def prime1305 : ℤ := 2 ^ 130 - 5
def isPrime (m : ℤ) : Prop := 1 < m ∧ ∀ d : ℤ, 1 < d → d < m → m % d ≠ 0
theorem axiom_primes : isPrime prime256 ∧ isPrime order256 ∧ isPrime prime1305 := by
  refine ⟨?_, ?_, ?_⟩
  · have h := no_divisor _ pr_{P}; unfold prime256 isPrime; norm_num at h ⊢; exact h
  · have h := no_divisor _ pr_{N}; unfold order256 isPrime; norm_num at h ⊢; exact h
  · have h := no_divisor _ pr_{Q}; unfold prime1305 isPrime; norm_num at h ⊢; exact h
#print axioms axiom_primes""")
