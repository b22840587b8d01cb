---------------------------- MODULE TraceIterate ----------------------------
(***************************************************************************)
(* Conformance of recorded coupled-cluster iterations.                     *)
(*                                                                         *)
(* A case is a system with start amplitudes and the events of one          *)
(* schedule of SpecIterate.  The specification iterates by itself: its     *)
(* amplitudes are those of the case at the start, and after an update      *)
(*      new = Snap(old + residual)       element by element                *)
(* with its own residual of the coupled-cluster machine.  Snap folds any   *)
(* number onto {0, 1, -1, i, -i} (of a real system, {0, 1, -1}) and is     *)
(* odd, so that antisymmetry survives and iterations of any length stay    *)
(* exact.  Every event records                                             *)
(* the residual or energy returned by the library (`outs') and the         *)
(* amplitudes held afterwards (`keep'); all of them must be those of the   *)
(* specification.  The first event that is not ends the case.              *)
(***************************************************************************)
EXTENDS CoupledCluster, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES ci, ph, cur, w, e
vars == <<ci, ph, cur, w, e>>

Case == Cases[ci]

ImagUnit == 2601
ASSUME Mul(ImagUnit, ImagUnit) = P - 1

Fold(x, real) ==
  LET c == IF 2 * x > P THEN x - P ELSE x
      m == c % (IF real THEN 3 ELSE 5)
  IN CASE m = 0 -> 0 [] m = 1 -> 1
       [] m = (IF real THEN 2 ELSE 4) -> P - 1
       [] m = 2 -> ImagUnit [] m = 3 -> P - ImagUnit
ASSUME \A real \in BOOLEAN : \A x \in 0..(P - 1) : Fold(Neg(x), real) = Neg(Fold(x, real))
Snap(x) == Fold(x, Case.real)

RECURSIVE ExpTerms(_, _, _, _)
ExpTerms(M, sgn, x, k) ==
  LET y == TLCEval(NextTerm(M, sgn, x, k))
  IN IF IsZero(y) THEN x ELSE VecAdd(x, ExpTerms(M, sgn, y, k + 1))
RECURSIVE ExpTermsL(_, _, _, _)
ExpTermsL(M, sgn, x, k) ==
  LET y == TLCEval(NextTermL(M, sgn, x, k))
  IN IF IsZero(y) THEN x ELSE VecAdd(x, ExpTermsL(M, sgn, y, k + 1))

Init == /\ ci \in 1..Len(Cases)
        /\ ph = "setup" /\ cur = Cases[ci].sys /\ w = <<>> /\ e = 1

\* Determinants and Hamiltonian do not change.
Setup ==
  /\ ph = "setup"
  /\ LET sys == TLCEval(SystemOf(cur))
         bas == TLCEval(BasisOf(sys))
         pos == TLCEval(Positions(bas))
         zero == [q \in 1..Len(bas) |-> 0]
     IN w' = [sys |-> sys, bas |-> bas, pos |-> pos, g |-> PosOf(pos, Ground(sys)),
              T |-> <<>>, H |-> MatrixH(sys, bas), ket |-> zero, hb |-> zero, b0 |-> zero,
              bra |-> zero, bhb |-> zero]
  /\ ph' = "dress"
  /\ UNCHANGED <<ci, cur, e>>

\* e^-T H e^T |0> for the current amplitudes.
Dress ==
  /\ ph = "dress"
  /\ LET sys == TLCEval(SystemOf(cur))
         T   == TLCEval(MatrixT(sys, w.bas))
         ket == TLCEval(ExpTerms(T, 1, Unit(Len(w.bas), w.g), 1))
         hb  == TLCEval(ExpTerms(T, -1, TLCEval(MatVec(w.H, ket)), 1))
     IN w' = [w EXCEPT !.sys = sys, !.T = T, !.ket = ket, !.hb = hb]
  /\ ph' = "event"
  /\ UNCHANGED <<ci, cur, e>>

Event == Case.events[e]

\* <0|(1 + L) e^-T H e^T for the current amplitudes.
Brace(v) ==
  LET L   == MatrixL(v.sys, v.bas)
      b0  == TLCEval(VecAdd(Unit(Len(v.bas), v.g), L[v.g]))
      bra == TLCEval(ExpTermsL(v.T, -1, b0, 1))
      bhb == TLCEval(ExpTermsL(v.T, 1, TLCEval(VecMat(bra, v.H)), 1))
  IN [v EXCEPT !.b0 = b0, !.bra = bra, !.bhb = bhb]

(***************************************************************************)
(* Updates, on the independent amplitudes of each kind of system.          *)
(***************************************************************************)
New(old, R(_, _), vs, os) ==
  [a \in 1..Len(vs) |-> [i \in 1..Len(os) |-> Snap(Add(old[a][i], R(vs[a], os[i])))]]
New4(old, R(_, _, _, _), A, B, C, D) ==
  [a \in 1..Len(A) |-> [b \in 1..Len(B) |-> [c \in 1..Len(C) |-> [d \in 1..Len(D) |->
     Snap(Add(old[a][b][c][d], R(A[a], B[b], C[c], D[d])))]]]]

Seg(from, len) == [k \in 1..len |-> from + k]
Spaces(c) ==
  CASE c.form = "g" -> [o |-> Seg(0, c.no), v |-> Seg(c.no, c.nv)]
    [] c.form = "r" -> [o |-> Seg(0, c.no), O |-> Seg(c.no, c.no),
                        v |-> Seg(2 * c.no, c.nv), V |-> Seg(2 * c.no + c.nv, c.nv)]
    [] c.form = "u" -> [o |-> Seg(0, c.noa), O |-> Seg(c.noa, c.nob),
                        v |-> Seg(c.noa + c.nob, c.nva),
                        V |-> Seg(c.noa + c.nob + c.nva, c.nvb)]

UpdatedT(v, c) ==
  LET s == Spaces(c)
      R1(a, i) == Res1(v, a, i)
      R2(a, b, i, j) == IF a = b \/ i = j THEN 0 ELSE Res2(v, a, b, i, j)
  IN CASE c.form = "g" -> [c EXCEPT !.T1 = New(c.T1, R1, s.v, s.o),
                                    !.T2 = New4(c.T2, R2, s.v, s.v, s.o, s.o)]
       [] c.form = "r" -> [c EXCEPT !.T1 = New(c.T1, R1, s.v, s.o),
                                    !.T2 = New4(c.T2, R2, s.v, s.V, s.o, s.O)]
       [] c.form = "u" -> [c EXCEPT !.T1a = New(c.T1a, R1, s.v, s.o),
                                    !.T1b = New(c.T1b, R1, s.V, s.O),
                                    !.T2aa = New4(c.T2aa, R2, s.v, s.v, s.o, s.o),
                                    !.T2ab = New4(c.T2ab, R2, s.v, s.V, s.o, s.O),
                                    !.T2bb = New4(c.T2bb, R2, s.V, s.V, s.O, s.O)]
UpdatedL(v, c) ==
  LET s == Spaces(c)
      R1(i, a) == Lam1(v, i, a)
      R2(i, j, a, b) == IF a = b \/ i = j THEN 0 ELSE Lam2(v, i, j, a, b)
  IN CASE c.form = "g" -> [c EXCEPT !.L1 = New(c.L1, R1, s.o, s.v),
                                    !.L2 = New4(c.L2, R2, s.o, s.o, s.v, s.v)]
       [] c.form = "r" -> [c EXCEPT !.L1 = New(c.L1, R1, s.o, s.v),
                                    !.L2 = New4(c.L2, R2, s.o, s.O, s.v, s.V)]
       [] c.form = "u" -> [c EXCEPT !.L1a = New(c.L1a, R1, s.o, s.v),
                                    !.L1b = New(c.L1b, R1, s.O, s.V),
                                    !.L2aa = New4(c.L2aa, R2, s.o, s.o, s.v, s.v),
                                    !.L2ab = New4(c.L2ab, R2, s.o, s.O, s.v, s.V),
                                    !.L2bb = New4(c.L2bb, R2, s.O, s.O, s.V, s.V)]

(***************************************************************************)
(* Judging.                                                                *)
(***************************************************************************)
Value(v, kind, x) ==
  LET no == v.sys.no IN
  CASE kind = "R1" -> Res1(v, x[1], x[2])
    [] kind = "M1" -> Lam1(v, x[1], x[2])
    [] kind = "R2" -> IF x[1] = x[2] \/ x[3] = x[4] THEN 0 ELSE Res2(v, x[1], x[2], x[3], x[4])
    [] kind = "M2" -> IF x[1] = x[2] \/ x[3] = x[4] THEN 0 ELSE Lam2(v, x[1], x[2], x[3], x[4])
    [] kind = "T1" -> v.sys.T1[x[1] - no][x[2]]
    [] kind = "L1" -> v.sys.L1[x[1]][x[2] - no]
    [] kind = "T2" -> v.sys.T2[x[1] - no][x[2] - no][x[3]][x[4]]
    [] kind = "L2" -> v.sys.L2[x[1]][x[2]][x[3] - no][x[4] - no]

Wrong(v, o) ==
  IF o.st # "ok" THEN TRUE
  ELSE IF o.kind = "done" THEN FALSE
  ELSE IF o.kind = "E" THEN o.val # Energy(v)
  ELSE IF Len(o.ax) = 2 THEN
    \E p \in 1..Len(o.ax[1]) : \E q \in 1..Len(o.ax[2]) :
       o.val[p][q] # Value(v, o.kind, <<o.ax[1][p], o.ax[2][q]>>)
  ELSE
    \E p \in 1..Len(o.ax[1]) : \E q \in 1..Len(o.ax[2]) :
    \E r \in 1..Len(o.ax[3]) : \E s \in 1..Len(o.ax[4]) :
       o.val[p][q][r][s] # Value(v, o.kind, <<o.ax[1][p], o.ax[2][q], o.ax[3][r], o.ax[4][s]>>)

Reason(o) == Event.m \o "." \o o.name \o (IF o.st = "ok" THEN ":value" ELSE ":" \o o.st)

Verdict(bad) == PrintT("VERDICT " \o ToJson([id |-> Case.id, at |-> e, bad |-> SetToSeq(bad)]))
Stop(bad) == Verdict(bad) /\ ph' = "done" /\ cur' = <<>> /\ w' = <<>> /\ e' = e

Run ==
  /\ ph = "event"
  /\ e <= Len(Case.events)
  /\ LET v    == IF Event.k = "lam" THEN TLCEval(Brace(w)) ELSE w
         next == CASE Event.k = "amp" -> TLCEval(UpdatedT(v, cur))
                   [] Event.k = "lam" -> TLCEval(UpdatedL(v, cur))
                   [] OTHER -> cur
         sys  == IF Event.k \in {"amp", "lam"} THEN TLCEval(SystemOf(next)) ELSE v.sys
         v2   == [v EXCEPT !.sys = sys]
         bad  == {Reason(Event.outs[o]) : o \in {q \in 1..Len(Event.outs) : Wrong(v, Event.outs[q])}}
                 \cup {Reason(Event.keep[o]) : o \in {q \in 1..Len(Event.keep) : Wrong(v2, Event.keep[q])}}
     IN IF bad # {} THEN Stop(bad)
        ELSE /\ cur' = next /\ w' = [w EXCEPT !.sys = sys] /\ e' = e + 1
             /\ ph' = IF Event.k = "amp" THEN "dress" ELSE "event"
  /\ UNCHANGED ci

Finish == ph \in {"event", "dress"} /\ e > Len(Case.events) /\ Stop({}) /\ UNCHANGED ci

Next == Setup \/ (e <= Len(Case.events) /\ Dress) \/ Run \/ Finish
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Closed shells stay closed shells: the residuals of a spin-adapted       *)
(* system are spin-adapted, which is what lets the restricted functions    *)
(* follow the others.                                                      *)
(***************************************************************************)
SpinAdapted ==
  ph = "event" /\ cur.form = "r" =>
    LET s == Spaces(cur) IN
    /\ \A a \in 1..cur.nv : \A i \in 1..cur.no :
         Res1(w, s.v[a], s.o[i]) = Res1(w, s.V[a], s.O[i])
    /\ \A a, b \in 1..cur.nv : \A i, j \in 1..cur.no :
         a # b /\ i # j =>
           /\ Res2(w, s.v[a], s.v[b], s.o[i], s.o[j])
              = Sub(Res2(w, s.v[a], s.V[b], s.o[i], s.O[j]), Res2(w, s.v[a], s.V[b], s.o[j], s.O[i]))
           /\ Res2(w, s.v[a], s.v[b], s.o[i], s.o[j]) = Res2(w, s.V[a], s.V[b], s.O[i], s.O[j])
=============================================================================
