import Mathlib
/-! Number theory of the Paillier group used by the contracts of verifiable encryption (engine/models_cs.py):
N = n^2, h = 1 + n, t = 2 (2^-1 mod n), residues are the representatives in 0..N. -/

theorem two_inv (n i : ℕ) (h : 2 * i % n = 1 % n) : 2 * i ≡ 1 [MOD n] := h

theorem one_add_pow_mod (n e : ℕ) : (1 + n) ^ e ≡ 1 + e * n [MOD n ^ 2] := by
  induction e with
  | zero => simp; rfl
  | succ e ih =>
    have h : (1 + n) ^ (e + 1) ≡ (1 + e * n) * (1 + n) [MOD n ^ 2] := by
      rw [pow_succ]; exact ih.mul_right _
    refine h.trans ?_
    have e1 : (1 + e * n) * (1 + n) = 1 + (e + 1) * n + n ^ 2 * e := by ring
    rw [e1]; unfold Nat.ModEq; simp

/-- (1+n)^(M t) mod n^2 = 1 + M n: the rule `EN` -/
theorem decrypts (n M t : ℕ) (hn : 2 ≤ n) (ht : t ≡ 1 [MOD n]) (hM : M < n) :
    (1 + n) ^ (M * t) % n ^ 2 = 1 + M * n := by
  have h1 : M * t ≡ M [MOD n] := by simpa using ht.mul_left M
  have h2 : M * t * n ≡ M * n [MOD n ^ 2] := by
    rw [pow_two]; exact Nat.ModEq.mul_right' n h1
  have h3 : (1 + n) ^ (M * t) ≡ 1 + M * n [MOD n ^ 2] :=
    (one_add_pow_mod n (M * t)).trans (h2.add_left 1)
  have h4 : 1 + M * n < n ^ 2 := by nlinarith
  rw [h3, Nat.mod_eq_of_lt h4]

/-- reading it modulo n and dividing: the rules of `cs_mod` and `cs_div` -/
theorem plain_mod (n M : ℕ) (hn : 2 ≤ n) : (1 + M * n) % n = 1 := by
  rw [Nat.add_mul_mod_self_right]; exact Nat.mod_eq_of_lt hn
theorem plain_small (n M : ℕ) (hn : 2 ≤ n) (hM : M < n) : (1 + M * n) % n ^ 2 = 1 + M * n := by
  apply Nat.mod_eq_of_lt; nlinarith
theorem plain_div (n M : ℕ) (hn : 0 < n) : (1 + M * n - 1) / n = M := by
  rw [Nat.add_sub_cancel_left]; exact Nat.mul_div_cancel M hn

/-- the absolute value of section 3.2: `negated` and `folded` -/
theorem neg_mod (N a : ℕ) (h0 : 0 < a) (h : a < N) : (N - a) % N = N - a := Nat.mod_eq_of_lt (by omega)
theorem folded (N a : ℕ) (h : N / 2 < a) : ¬ (N / 2 < N - a) := by omega
theorem neg_even_pow (N a x : ℕ) (h : a < N) : (N - a) ^ (2 * x) ≡ a ^ (2 * x) [MOD N] := by
  have e : ((N - a : ℕ) : ZMod N) = -(a : ZMod N) := by
    rw [Nat.cast_sub h.le]; simp
  rw [← ZMod.natCast_eq_natCast_iff]; push_cast; rw [e]
  rw [pow_mul, pow_mul]; simp

/-- the product of the randomness and the challenge is not reduced: `cs_mul` -/
theorem product_small (n r c : ℕ) (hn : 0 < n) (hr : r < n / 4) (hc : c ≤ n) : r * c < n ^ 2 := by
  have h1 : r < n := by omega
  calc r * c ≤ r * n := Nat.mul_le_mul_left r hc
    _ < n * n := (Nat.mul_lt_mul_right hn).mpr h1
    _ = n ^ 2 := by ring

/-- removing multiples of the modulus: `drop` -/
theorem drop_multiple (N x k : ℤ) : (x + N * k) % N = x % N := by simp
#print axioms two_inv
#print axioms one_add_pow_mod
#print axioms decrypts
#print axioms plain_mod
#print axioms plain_small
#print axioms plain_div
#print axioms neg_mod
#print axioms folded
#print axioms neg_even_pow
#print axioms product_small
#print axioms drop_multiple
