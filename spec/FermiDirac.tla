----------------------------- MODULE FermiDirac -----------------------------
(***************************************************************************)
(* Fermi-Dirac statistics of one level in fixed point.                     *)
(*                                                                         *)
(* With y = |beta (e - mu)| and E = exp(-y) everything follows from        *)
(*     s = E/(1+E)            the smaller of the occupation and its hole   *)
(*     1 - s = 1/(1+E)        the larger one                               *)
(*     -beta Omega = ln(1+E) + max(-x, 0)                                  *)
(*     beta^2 dOmega/dbeta = ln(1+E) + y s                                 *)
(* E is kept as 2^-k M with M in (1/2, 1], so tails keep all their digits. *)
(* A fixed-point number a stands for a / 2^F.                              *)
(***************************************************************************)
EXTENDS BigNat

F == 135
One == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>
FMul(a, b) == LET c == TLCEval(Times(a, b)) IN SubSeq(c, 10, Len(c))
FDiv(a, b) == Div(Shift(a, F), b, F + 13)

\* ln 2 = 2 artanh(1/3)
RECURSIVE ArtSum(_, _, _)
\* sum of z^(2n)/(2n+1) from n on, term = z^(2n)
ArtSum(term, z2, n) ==
  IF term = <<>> THEN <<>>
  ELSE Plus(DivLimb(term, 2 * n + 1), ArtSum(TLCEval(FMul(term, z2)), z2, n + 1))
LnTwo == LET third == DivLimb(One, 3) IN FMul(Shift(third, 1), ArtSum(One, DivLimb(One, 9), 0))

\* The same digits written out; equality is an assumption checked by TLC.
Ln2 == <<22417, 29430, 12295, 3790, 24143, 30618, 31289, 1533, 22713>>
ASSUME Ln2 = LnTwo /\ One = Shift(<<1>>, F)

\* exp(-r) for 0 <= r < 1: even terms minus odd terms
RECURSIVE ExpSums(_, _, _)
ExpSums(term, r, n) ==
  IF term = <<>> THEN [even |-> <<>>, odd |-> <<>>]
  ELSE LET rest == ExpSums(TLCEval(DivLimb(FMul(term, r), n + 1)), r, n + 1)
       IN IF n % 2 = 0 THEN [rest EXCEPT !.even = Plus(term, @)]
          ELSE [rest EXCEPT !.odd = Plus(term, @)]
ExpNeg(r) == LET e == ExpSums(One, r, 0) IN Minus(e.even, e.odd)

\* exp(-y) = 2^-k m
Boltz(y) ==
  LET k == Big2Nat(Div(y, Ln2, 14))
      r == Minus(y, TimesLimb(Ln2, k))
  IN [k |-> k, m |-> ExpNeg(r)]

\* The level: all in fixed point, the tails divided by 2^-k.
Level(y) ==
  LET b == TLCEval(Boltz(y))
      e == TLCEval(Shift(b.m, -b.k))
      d == Plus(Shift(One, 1), e)
      z == FDiv(e, d)
      small == FDiv(b.m, Plus(One, e))
      \* ln(1+E) = 2 artanh(E/(2+E))
      log == FMul(FDiv(Shift(b.m, 1), d), ArtSum(One, FMul(z, z), 0))
  IN TLCEval([k |-> b.k,
              m |-> b.m,
              e |-> e,
              small |-> small,                         \* s 2^k
              large |-> FDiv(One, Plus(One, e)),
              log |-> log,                             \* ln(1+E) 2^k
              der |-> Plus(log, FMul(y, small))])      \* (ln(1+E) + y s) 2^k
=============================================================================
