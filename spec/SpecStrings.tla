----------------------------- MODULE SpecStrings ----------------------------
(***************************************************************************)
(* Determinant strings as a state machine.                                 *)
(*                                                                         *)
(* The state is the string a user holds.  Excite(i, a) is a+_a a_i on it:  *)
(* either nothing comes back and the user still holds the old string, or a *)
(* new string with a sign does.  Explored exhaustively (Spec) every        *)
(* transition is printed and replayed on the real objects; simulated       *)
(* (Walks) it prints whole histories.                                      *)
(***************************************************************************)
EXTENDS Fock, Json, IOUtils, TLC

CONSTANTS MinN, MaxN, Depth

VARIABLES n, cur, hist
vars == <<n, cur, hist>>

Vec(m, D) == [p \in 1..m |-> IF p \in D THEN 1 ELSE 0]
Result(D, i, a) == Act(Ex1(i, a), Det(D))

TypeOK == n \in MinN..MaxN /\ cur \in SUBSET (1..n)

(* Exhaustive exploration.                                                 *)
Init == n \in MinN..MaxN /\ cur \in SUBSET (1..n) /\ hist = <<>>

Excite(i, a) ==
  LET r == Result(cur, i, a) IN
  /\ PrintT("STEP " \o ToJson([n |-> n, occ |-> Vec(n, cur), i |-> i - 1, a |-> a - 1,
                               s |-> r.s, new |-> IF r.s = 0 THEN <<>> ELSE Vec(n, r.d)]))
  /\ cur' = IF r.s = 0 THEN cur ELSE r.d
  /\ UNCHANGED <<n, hist>>

Next == \E i \in 1..n : \E a \in 1..n : Excite(i, a)
Spec == Init /\ [][Next]_vars

(* Comparing two strings.                                                  *)
Compare ==
  \A m \in MinN..MaxN : \A D \in SUBSET (1..m) :
    PrintT("PAIR " \o ToJson([n |-> n, m |-> m, x |-> Vec(n, cur), y |-> Vec(m, D),
              eq |-> n = m /\ D = cur,
              lev |-> IF n = m THEN Cardinality((D \ cur) \cup (cur \ D)) ELSE -1]))
CompareSpec == Init /\ [][FALSE]_vars

(* Histories.                                                              *)
(* TLC computes initial states once for all walks, so the start is a step.  *)
WalkInit == n = MinN /\ cur = {} /\ hist = <<>>
WalkStart ==
  /\ hist = <<>>
  \* half of the strings are short; some have few electrons, some few holes
  /\ \E m \in {RandomElement(MinN..(IF RandomElement(1..2) = 1 THEN MaxN ELSE MinN + 9))} :
     \E t \in {RandomElement(1..3)} : \E D \in {{p \in 1..m : RandomElement(1..4) <= t}} :
       n' = m /\ cur' = D /\ hist' = << <<Vec(m, D), 0, 0, 1, 0>> >>
WalkStep ==
  /\ hist # <<>> /\ Len(hist) <= Depth
  \* half of the steps excite an occupied orbital, so that walks go somewhere
  /\ \E i \in {RandomElement(IF cur # {} /\ RandomElement({0, 1}) = 1 THEN cur ELSE 1..n)} :
     \E a \in {RandomElement(1..n)} :
        LET r == Result(cur, i, a) IN
        /\ cur' = IF r.s = 0 THEN cur ELSE r.d
        /\ hist' = Append(hist, <<Vec(n, cur'), i - 1, a - 1, r.s,
              Cardinality({p \in 1..n : (p \in cur') # (hist[1][1][p] = 1)})>>)
        /\ n' = n
  /\ IF Len(hist') = Depth + 1 THEN PrintT("WALK " \o ToJson([n |-> n, h |-> hist'])) ELSE TRUE
Walks == WalkInit /\ [][WalkStart \/ WalkStep]_vars

(***************************************************************************)
(* What makes Result the fermionic excitation: the unitary-group relations *)
(*    [E_ai, E_bj] = d_ib E_aj - d_aj E_bi,   E_ai = a+_a a_i              *)
(* on every string, conservation of electrons, and reversibility.          *)
(***************************************************************************)
Coef(ops, D, E) == LET r == Act(ops, Det(D)) IN IF r.s # 0 /\ r.d = E THEN r.s ELSE 0
Algebra ==
  \A i, a, j, b \in 1..n :
    LET x == Act(Ex1(i, a) \o Ex1(j, b), Det(cur))
        y == Act(Ex1(j, b) \o Ex1(i, a), Det(cur))
        T == {x.d, y.d} \cup (IF i = b THEN {Result(cur, j, a).d} ELSE {})
                        \cup (IF j = a THEN {Result(cur, i, b).d} ELSE {})
    IN \A E \in T :
         Coef(Ex1(i, a) \o Ex1(j, b), cur, E) - Coef(Ex1(j, b) \o Ex1(i, a), cur, E)
         = (IF i = b THEN Coef(Ex1(j, a), cur, E) ELSE 0)
           - (IF j = a THEN Coef(Ex1(i, b), cur, E) ELSE 0)
Conserved ==
  \A i, a \in 1..n : LET r == Result(cur, i, a) IN
     r.s # 0 => /\ Cardinality(r.d) = Cardinality(cur)
                /\ Result(r.d, a, i) = [s |-> r.s, d |-> cur]
Numbers == \A i \in 1..n : Result(cur, i, i) = IF i \in cur THEN Det(cur) ELSE Null
=============================================================================
