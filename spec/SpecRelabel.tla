---------------------------- MODULE SpecRelabel -----------------------------
(***************************************************************************)
(* Sequences of relabellings.                                              *)
(*                                                                         *)
(* Exhaustive configuration: a model tensor with one index of each class   *)
(* pair is carried along, changed by each action on its own, and must at   *)
(* every moment be the original one seen through the composed labelling.   *)
(* Walks: sequences of actions for the sizes in IOEnv.SIZES are printed    *)
(* and replayed on the arguments of the real library.                      *)
(***************************************************************************)
EXTENDS Relabel, Json, IOUtils

CONSTANTS Depth, Small
VARIABLES no, size, lab, log, X
vars == <<no, size, lab, log, X>>

Acts(full) ==
  UNION {[k : {"swap"}, c : {c}, i : 1..Len(lab.up[c]), j : 1..Len(lab.up[c])]
         \cup (IF Len(lab.up[c]) > 1 THEN [k : {"cycle"}, c : {c}, i : 1..(Len(lab.up[c]) - 1), j : {0}] ELSE {})
         \cup [k : {"scale"}, c : {c}, i : 1..Len(lab.up[c]), j : IF full THEN {-7, -3, 5} ELSE {1}]
         \cup [k : {"turn"}, c : {c}, i : 1..Len(lab.up[c]), j : IF full THEN {1, 2, 3} ELSE {1}]
         \cup [k : {"mix"}, c : {c}, i : 1..Len(lab.up[c]), j : 1..Len(lab.up[c])]
         : c \in Classes}
  \cup (IF size["O"] + size["V"] > 0 THEN [k : {"spins"}, c : {"o"}, i : {0}, j : {0}] ELSE {})

Allowed(a, kind) == /\ a.k = "swap" => a.i < a.j
                    /\ a.k = "mix" => a.i # a.j
                    /\ kind = "real" => (a.k = "turn" => a.j = 2)
                    /\ kind = "closed" => a.k # "spins"

(* ---- model: a tensor over (v V; o O) ------------------------------------ *)
Start(sz) == [a \in 1..sz["v"] |-> [b \in 1..sz["V"] |-> [i \in 1..sz["o"] |-> [j \in 1..sz["O"] |->
                N(Pow(a * 911 + b * 353 + i * 127 + j * 41, 3))]]]]
Idx(T) == LET d2 == T[1] d3 == d2[1] d4 == d3[1] IN (1..Len(T)) \X (1..Len(d2)) \X (1..Len(d3)) \X (1..Len(d4))
Build(n1, n2, n3, n4, f(_, _, _, _)) ==
  [a \in 1..n1 |-> [b \in 1..n2 |-> [i \in 1..n3 |-> [j \in 1..n4 |-> f(a, b, i, j)]]]]
Move(act, n) == \* new position -> old position
  [k \in 1..n |-> CASE act.k = "swap" -> (IF k = act.i THEN act.j ELSE IF k = act.j THEN act.i ELSE k)
                    [] act.k = "cycle" -> ((k - 1 + act.i) % n) + 1
                    [] OTHER -> k]
Alone(act, T, sz) ==       \* what the action does to the tensor
  LET m(c, k) == IF act.c = c /\ act.k \in {"swap", "cycle"} THEN Move(act, sz[c])[k] ELSE k
      f == IF act.k = "scale" THEN Power(2, act.j) ELSE IF act.k = "turn" THEN Pow(RootM1, act.j) ELSE 1
      g(c, k, x) == IF act.k \in {"scale", "turn"} /\ act.c = c /\ act.i = k THEN x ELSE 1
      t == IF act.k = "mix" THEN Share(lab, act) ELSE 0
      \* the element and what a mixture adds to it along one axis
      up(c, k, h(_)) == IF act.k = "mix" /\ act.c = c /\ act.i = k THEN Add(h(k), Mul(t, h(act.j))) ELSE h(k)
      dn(c, k, h(_)) == IF act.k = "mix" /\ act.c = c /\ act.j = k THEN Sub(h(k), Mul(t, h(act.i))) ELSE h(k)
  IN IF act.k = "spins"
     THEN Build(sz["V"], sz["v"], sz["O"], sz["o"], LAMBDA a, b, i, j : T[b][a][j][i])
     ELSE IF act.k = "mix"
     THEN Build(sz["v"], sz["V"], sz["o"], sz["O"], LAMBDA a, b, i, j :
            up("v", a, LAMBDA x : up("V", b, LAMBDA y : dn("o", i, LAMBDA z : dn("O", j, LAMBDA w : T[x][y][z][w])))))
     ELSE Build(sz["v"], sz["V"], sz["o"], sz["O"], LAMBDA a, b, i, j :
            Mul(T[m("v", a)][m("V", b)][m("o", i)][m("O", j)],
                Mul(Mul(g("v", a, f), g("V", b, f)), Mul(g("o", i, Inv(f)), g("O", j, Inv(f))))))

SmallSizes == {[o |-> 1, v |-> 2, O |-> 2, V |-> 1], [o |-> 2, v |-> 1, O |-> 1, V |-> 2], [o |-> 2, v |-> 2, O |-> 1, V |-> 1]}
Init == no = 0 /\ size \in Small /\ lab = Plain(size) /\ log = <<>> /\ X = Start(size)
Now(c) == Len(lab.up[c])
Step == /\ Len(log) < Depth
        /\ \E a \in Acts(FALSE) : Allowed(a, "complex") /\ lab' = Do(lab, a) /\ log' = Append(log, a)
             /\ X' = TLCEval(Alone(a, X, [c \in Classes |-> Now(c)]))
        /\ UNCHANGED <<no, size>>
Spec == Init /\ [][Step]_vars

Composed == Same(lab, <<"v", "V", "o", "O">>, X, <<[blk |-> <<"v", "V", "o", "O">>, val |-> Start(size)]>>)
\* The two kinds of indices change inversely, so contractions of them stay what they are.
Dual == \A c \in Classes : \A p, q \in 1..Now(c) :
             Combine(lab.up[c][p], LAMBDA k : Coef(lab.dn[c][q], k)) = (IF p = q THEN 1 ELSE 0)

(* ---- walks --------------------------------------------------------------- *)
Sizes == JsonDeserialize(IOEnv.SIZES)       \* [size, kind] records
InitWalk == no \in 1..Len(Sizes) /\ size = Sizes[no].size /\ lab = Plain(size) /\ log = <<>> /\ X = 0
StepWalk ==
  /\ Len(log) < Depth
  /\ \E c \in {RandomElement({a.k : a \in {b \in Acts(TRUE) : Allowed(b, Sizes[no].kind)}})} :
     \E a \in {RandomElement({b \in Acts(TRUE) : b.k = c /\ Allowed(b, Sizes[no].kind)})} :
       lab' = Do(lab, a) /\ log' = Append(log, a)
  /\ UNCHANGED <<no, size, X>>
Publish ==
  /\ Len(log) = Depth
  /\ PrintT("WALK " \o ToJson([no |-> no, log |-> log]))
  /\ log' = Append(log, [k |-> "end", c |-> "o", i |-> 0, j |-> 0])
  /\ UNCHANGED <<no, size, lab, X>>
SpecWalk == InitWalk /\ [][StepWalk \/ Publish]_vars
=============================================================================
