import Mathlib.LinearAlgebra.Lagrange
/-! Threshold recombination: a polynomial of degree below the number of distinct points is determined at 0 by
its values, with exactly the coefficients that `Scheme::combine_shares` is specified to use. -/
open Polynomial in
theorem recombine {F ι : Type*} [Field F] [DecidableEq ι] (s : Finset ι) (x : ι → F)
    (hinj : Set.InjOn x s) (p : F[X]) (hdeg : p.degree < s.card) :
    ∑ i ∈ s, p.eval (x i) * ∏ j ∈ s.erase i, (x j / (x j - x i)) = p.eval 0 := by
  conv_rhs => rw [Lagrange.eq_interpolate hinj hdeg]
  rw [Lagrange.interpolate_apply, Polynomial.eval_finset_sum]
  refine Finset.sum_congr rfl fun i hi => ?_
  rw [Polynomial.eval_mul, Polynomial.eval_C, Lagrange.basis, Polynomial.eval_prod]
  congr 1
  refine Finset.prod_congr rfl fun j hj => ?_
  rw [Lagrange.basisDivisor, Polynomial.eval_mul, Polynomial.eval_C, Polynomial.eval_sub, Polynomial.eval_X, Polynomial.eval_C]
  rw [div_eq_mul_inv, mul_comm, zero_sub, ← neg_sub (x j) (x i), inv_neg]
  ring
#print axioms recombine
