------------------------------- MODULE Linear -------------------------------
(***************************************************************************)
(* Sums of arguments.                                                      *)
(*                                                                         *)
(* Energies, residuals and Lambda residuals are linear in the Hamiltonian: *)
(* what a sum of Hamiltonians gives is the sum of what its terms give.     *)
(* Lambda residuals and densities are of first degree in Lambda, and the   *)
(* results of linearised methods in the amplitudes: there the coefficients *)
(* of a combination have to add up to one.                                 *)
(***************************************************************************)
EXTENDS Field

\* parts: values of the terms, cs: their coefficients (integers)
RECURSIVE IsCombination(_, _, _, _)
IsCombination(d, val, parts, cs) ==
  IF d = 0 THEN val = FoldLeft(LAMBDA acc, k : Add(acc, Mul(N(cs[k]), parts[k])), 0, [k \in 1..Len(cs) |-> k])
  ELSE \A p \in 1..Len(val) : IsCombination(d - 1, val[p], [k \in 1..Len(cs) |-> parts[k][p]], cs)

Coefficients(what, cs) == what = "H" \/ FoldLeft(LAMBDA a, b : a + b, 0, cs) = 1
=============================================================================
