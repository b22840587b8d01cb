----------------------------- MODULE TraceFermi -----------------------------
(***************************************************************************)
(* Conformance of recorded occupations and grand potentials.               *)
(*                                                                         *)
(* A case is one level: beta = bm 2^be and e - mu = sg * em 2^ee, exact,   *)
(* with results that are doubles, sg * m 2^e with m in limbs.              *)
(***************************************************************************)
EXTENDS FermiDirac, Json, IOUtils, FiniteSetsExt

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, done
vars == <<ci, done>>
Case == Cases[ci]

Y == Shift(Times(Case.bm, Case.em), F + Case.be + Case.ee)
Neg == Case.sg < 0                       \* the level lies below mu

\* |m 2^(e+shift) - want| <= tol, with want >= 0
Near(o, shift, want, tol) ==
  LET got == Shift(o.m, F + o.e + shift)
  IN IF o.sg < 0 THEN Leq(Plus(got, want), tol) ELSE Leq(Dist(got, want), tol)

\* 1.2e-10 and 1e-6 relative; 1.4e-14; 1.2e-13 (1 + y)
Rel33(w) == Shift(w, -33)
Rel20(w) == Shift(w, -20)
Abs46 == Shift(One, -46)
Abs43 == Shift(Plus(One, Y), -43)
TwentyUp == Leq(Shift(<<20>>, F), Y)

Thin(o, v) == /\ Near(o, v.k, v.small, Rel33(v.small))
              /\ Near(o, 0, Shift(v.small, -v.k), Abs46)
Bulk(o, v) == Near(o, 0, v.large, Abs46)
\* kT in hartree to kelvin
Kelvin(o) == LET t == Times(Nat2Big(315775), Shift(Case.em, F + Case.ee))
             IN Near(o, 0, t, Shift(t, -16))
Good(o, v) ==
  CASE o.kind = "K" -> Kelvin(o)
    [] o.kind = "f" -> IF Neg THEN Bulk(o, v) ELSE Thin(o, v)
    [] o.kind = "v" -> IF Neg THEN Thin(o, v) ELSE Bulk(o, v)
    [] o.kind = "g" ->
         LET w == Plus(Shift(v.log, -v.k), IF Neg THEN Y ELSE <<>>)
             p == [m |-> Times(o.m, Case.bm), e |-> o.e + Case.be, sg |-> -o.sg]
         IN /\ Near(p, 0, w, Abs43)
            /\ (TwentyUp /\ ~Neg) => Near(p, v.k, v.log, Rel20(v.log))
    [] o.kind = "d" ->
         LET w == Shift(v.der, -v.k)
             p == [m |-> Times(Times(o.m, Case.bm), Case.bm), e |-> o.e + 2 * Case.be, sg |-> o.sg]
         IN /\ Near(p, 0, w, Abs43)
            /\ TwentyUp => Near(p, v.k, v.der, Rel20(v.der))

\* Beyond the range of doubles the tail may round to zero.
Vanishing(o) == o.m = <<>> \/ Shift(o.m, F + o.e + 850) = <<>>
Beyond(o) ==
  CASE o.kind = "K" -> Kelvin(o)
    [] o.kind = (IF Neg THEN "v" ELSE "f") -> Vanishing(o)
    [] o.kind = (IF Neg THEN "f" ELSE "v") -> Near(o, 0, One, Abs46)
    [] o.kind = "g" ->
         LET p == [m |-> Times(o.m, Case.bm), e |-> o.e + Case.be, sg |-> -o.sg]
         IN IF Neg THEN Near(p, 0, Y, Abs43) ELSE Vanishing(o)
    [] o.kind = "d" -> Vanishing(o)

Bad ==
  LET out == {k \in 1..Len(Case.outs) : Case.outs[k].st = "ok"}
      wrong == IF Case.beyond THEN {k \in out : ~Beyond(Case.outs[k])}
               ELSE LET v == Level(Y) IN {k \in out : ~Good(Case.outs[k], v)}
  IN {Case.outs[k].name \o ":value" : k \in wrong}
     \cup {Case.outs[k].name \o ":" \o Case.outs[k].st : k \in (1..Len(Case.outs)) \ out}

Init == ci \in 1..Len(Cases) /\ done = FALSE
Judge == /\ ~done /\ done' = TRUE /\ UNCHANGED ci
         /\ PrintT("VERDICT " \o ToJson([id |-> Case.id, bad |-> SetToSeq(Bad)]))
Spec == Init /\ [][Judge]_vars
=============================================================================
