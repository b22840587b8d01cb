------------------------------- MODULE Field -------------------------------
(***************************************************************************)
(* Exact arithmetic for the specification.                                 *)
(*                                                                         *)
(* Every quantity the library computes from tensors is a polynomial with   *)
(* rational coefficients in the entries of its arguments.  Arguments are   *)
(* drawn from Z[i] or from dyadic multiples of it, so every correct value  *)
(* has an exact image under the ring homomorphism                          *)
(*     Z[i][1/2,1/3] -> F_P,   i |-> a square root of -1 modulo P          *)
(* and equality in the field is implied by equality of the numbers.  A     *)
(* correct implementation therefore never disagrees with the field; a      *)
(* wrong one agrees with probability about 1/P per compared number.        *)
(*                                                                         *)
(* P < 46341 keeps a*b + c inside the 32-bit integers of TLC.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

P == 46337

N(x)      == x % P
Add(a, b) == (a + b) % P
Sub(a, b) == (a - b) % P
Neg(a)    == (-a) % P
Mul(a, b) == (a * b) % P

RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1
             ELSE LET h == Pow(a, k \div 2)
                      q == Mul(h, h)
                  IN IF k % 2 = 0 THEN q ELSE Mul(q, a)

\* Fermat inverse; defined for a # 0.
Inv(a) == Pow(a, P - 2)
Half   == (P + 1) \div 2

\* Sum of f(x) over a finite set, in the field.
Sum(f(_), S) == FoldSet(LAMBDA x, acc : (f(x) + acc) % P, 0, S)

\* (-1)^k as an integer, and the same sign applied to a field element.
Sgn(k)     == IF k % 2 = 0 THEN 1 ELSE -1
Signed(s, a) == (s * a) % P

(* Dense linear algebra over F_P; vectors are sequences, matrices are      *)
(* sequences of rows.                                                      *)
Dot(a, b)    == FoldLeftDomain(LAMBDA acc, k : (a[k] * b[k] + acc) % P, 0, a)
MatVec(M, x) == [r \in 1..Len(M) |-> Dot(M[r], x)]
VecMat(x, M) == [c \in 1..Len(x) |->
                   FoldLeftDomain(LAMBDA acc, k : (x[k] * M[k][c] + acc) % P, 0, x)]
VecAdd(x, y) == [k \in 1..Len(x) |-> (x[k] + y[k]) % P]
VecSub(x, y) == [k \in 1..Len(x) |-> (x[k] - y[k]) % P]
Scale(s, x)  == [k \in 1..Len(x) |-> (s * x[k]) % P]
IsZero(x)    == \A k \in 1..Len(x) : x[k] = 0
Unit(m, g)   == [k \in 1..m |-> IF k = g THEN 1 ELSE 0]
=============================================================================
