------------------------------ MODULE Fragments -----------------------------
(***************************************************************************)
(* Systems that do not see each other.                                     *)
(*                                                                         *)
(* Fragments are put into one system in which no tensor connects orbitals  *)
(* of different fragments.  own[c][k] = <<f, j>> says that the k-th        *)
(* orbital of class c is the j-th of fragment f.  Coupled-cluster theory   *)
(* is extensive: energies add up, residuals are those of the fragments and *)
(* vanish between them.  Lambda residuals and density matrices inside a    *)
(* fragment are its own, one-body ones vanish between fragments, and       *)
(* two-body ones between fragments may only be there when as many of the   *)
(* first two indices as of the last two belong to each fragment.           *)
(***************************************************************************)
EXTENDS Field

Connected(kind) == kind \in {"R1", "R2", "M1", "G1"}

Energies(kind) == kind \in {"E", "Ed", "Es", "Ess", "Esu"}

Fits0(val, parts) == val = FoldLeft(LAMBDA acc, x : Add(acc, x), 0, parts)

\* parts[f]: the block of fragment f
Fits2(own, blk, val, parts) ==
  LET A == own[blk[1]]  B == own[blk[2]] IN
  \A p \in 1..Len(A) : \A q \in 1..Len(B) :
    val[p][q] = IF A[p][1] = B[q][1] THEN parts[A[p][1]][A[p][2]][B[q][2]] ELSE 0

Fits4(kind, own, blk, val, parts) ==
  LET A == own[blk[1]]  B == own[blk[2]]  C == own[blk[3]]  D == own[blk[4]] IN
  \A p \in 1..Len(A) : \A q \in 1..Len(B) : \A r \in 1..Len(C) : \A s \in 1..Len(D) :
    LET f == A[p][1]  g == B[q][1]  h == C[r][1]  k == D[s][1]  v == val[p][q][r][s] IN
    IF f = g /\ g = h /\ h = k THEN v = parts[f][A[p][2]][B[q][2]][C[r][2]][D[s][2]]
    ELSE IF Connected(kind) \/ ~(<<f, g>> = <<h, k>> \/ <<f, g>> = <<k, h>>) THEN v = 0
    ELSE TRUE

Fits(kind, own, blk, val, parts) ==
  IF Energies(kind) THEN Fits0(val, parts)
  ELSE IF Len(blk) = 2 THEN Fits2(own, blk, val, parts)
  ELSE Fits4(kind, own, blk, val, parts)
=============================================================================
