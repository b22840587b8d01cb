------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of any size as little-endian sequences of 15-bit limbs  *)
(* without leading zeros; zero is <<>>.  Products of limbs stay inside the *)
(* 32-bit integers of TLC.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

B == 32768
LimbBits == 15

Limb(a, k) == IF k <= Len(a) THEN a[k] ELSE 0
RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE Nat2Big(_)
Nat2Big(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o Nat2Big(n \div B)
\* Only for numbers below 2^30.
Big2Nat(a) == Limb(a, 1) + B * Limb(a, 2)

MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

\* -1, 0, 1
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, k) == IF k = 0 THEN 0
                    ELSE IF a[k] < b[k] THEN -1
                    ELSE IF a[k] > b[k] THEN 1
                    ELSE CmpFrom(a, b, k - 1)
Cmp(a, b) == IF Len(a) < Len(b) THEN -1
             ELSE IF Len(a) > Len(b) THEN 1
             ELSE CmpFrom(a, b, Len(a))
Leq(a, b) == Cmp(a, b) <= 0

Plus(a, b) ==
  LET n == MaxLen(a, b)
      r == FoldLeft(LAMBDA acc, k :
                      LET s == Limb(a, k) + Limb(b, k) + acc.c
                      IN [d |-> Append(acc.d, s % B), c |-> s \div B],
                    [d |-> <<>>, c |-> 0], [k \in 1..n |-> k])
  IN Trim(Append(r.d, r.c))

\* a - b for a >= b
Minus(a, b) ==
  LET r == FoldLeft(LAMBDA acc, k :
                      LET s == a[k] - Limb(b, k) - acc.c
                      IN [d |-> Append(acc.d, s % B), c |-> IF s < 0 THEN 1 ELSE 0],
                    [d |-> <<>>, c |-> 0], [k \in 1..Len(a) |-> k])
  IN Trim(r.d)
Dist(a, b) == IF Leq(a, b) THEN Minus(b, a) ELSE Minus(a, b)

\* a * m + c for one limb m
TimesLimb(a, m) ==
  LET r == FoldLeft(LAMBDA acc, x :
                      LET s == x * m + acc.c
                      IN [d |-> Append(acc.d, s % B), c |-> s \div B],
                    [d |-> <<>>, c |-> 0], a)
  IN Trim(Append(r.d, r.c))
Times(a, b) ==
  FoldRight(LAMBDA m, acc : Plus(TimesLimb(a, m), IF acc = <<>> THEN acc ELSE <<0>> \o acc), b, <<>>)

\* floor(a / m) for 0 < m < B
DivLimb(a, m) ==
  LET r == FoldRight(LAMBDA x, acc :
                       LET s == acc.r * B + x
                       IN [d |-> <<s \div m>> \o acc.d, r |-> s % m],
                     a, [d |-> <<>>, r |-> 0])
  IN Trim(r.d)

Zeros(n) == [k \in 1..n |-> 0]
\* floor(a * 2^s), s of either sign
Shift(a, s) ==
  IF a = <<>> THEN <<>>
  ELSE IF s >= 0 THEN Zeros(s \div LimbBits) \o TimesLimb(a, 2^(s % LimbBits))
  ELSE LET q == (-s) \div LimbBits
           t == (-s) % LimbBits
       IN IF q >= Len(a) THEN <<>>
          ELSE DivLimb(SubSeq(a, q + 1, Len(a)), 2^t)

\* floor(a / b) for b > 0, one bit of the quotient at a time: `bits' bounds
\* its length.
Div(a, b, bits) ==
  LET r == FoldLeft(LAMBDA acc, k :
                      LET t == Shift(b, bits - k)
                      IN IF Leq(t, acc.r)
                         THEN [q |-> Plus(Shift(acc.q, 1), <<1>>), r |-> Minus(acc.r, t)]
                         ELSE [q |-> Shift(acc.q, 1), r |-> acc.r],
                    [q |-> <<>>, r |-> a], [k \in 1..bits |-> k])
  IN r.q
=============================================================================
