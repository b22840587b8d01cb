----------------------------- MODULE SpecFermi ------------------------------
(***************************************************************************)
(* The fixed-point functions checked against what characterises them: the  *)
(* arithmetic against TLC's own integers, exp by its addition theorem,     *)
(* ln(1+E) by exp, ln 2 by exp(-ln 2) = 1/2.  Covers a grid of        *)
(* arguments y = n/16.                                                     *)
(***************************************************************************)
EXTENDS FermiDirac

CONSTANT Top
VARIABLES n
vars == <<n>>
Init == n \in 0..(Top \div 2)
Next == n <= Top \div 2 /\ n' = Top - n
Spec == Init /\ [][Next]_vars

Y(k) == Shift(Nat2Big(k), F - 4)
\* within 2^-110
Close(a, b) == Leq(Dist(a, b), Shift(One, -110))
Exp(k) == LET b == Boltz(Y(k)) IN Shift(b.m, -b.k)

NatOps ==
  LET a == n * 7919
      b == n * n + 13
  IN /\ Big2Nat(Plus(Nat2Big(a), Nat2Big(b))) = a + b
     /\ Big2Nat(Dist(Nat2Big(a), Nat2Big(b))) = (IF a < b THEN b - a ELSE a - b)
     /\ Big2Nat(Times(Nat2Big(a), Nat2Big(n))) = a * n
     /\ Big2Nat(DivLimb(Nat2Big(a), n + 1)) = a \div (n + 1)
     /\ Big2Nat(Div(Nat2Big(a), Nat2Big(b), 20)) = a \div b
     /\ Big2Nat(Shift(Nat2Big(a), -(n % 20))) = a \div 2^(n % 20)
     /\ Shift(Shift(Nat2Big(a), n), -n) = Nat2Big(a)
HalfLn == Close(FMul(ExpNeg(Ln2), Shift(One, 1)), One)
Addition == \A k \in {1, 16} : Close(FMul(Exp(n), Exp(k)), Exp(n + k))
\* 1 + E = exp(ln(1+E)): exp(-ln(1+E)) (1+E) = 1; and s + (1-s) = 1
Logarithm == LET v == Level(Y(n)) IN
             /\ Close(FMul(ExpNeg(Shift(v.log, -v.k)), Plus(One, v.e)), One)
             /\ Close(Plus(Shift(v.small, -v.k), v.large), One)
Decreasing == ~Leq(Exp(n), Exp(n + 1))
=============================================================================
