------------------------------ MODULE MCCheck ------------------------------
(* Facts about checking and repairing: every mesh of up to MaxT triangles on *)
(* five points, every placement of MaxP points on a small lattice.           *)
EXTENDS MeshCheck
CONSTANTS MaxT, MaxP, Span
VARIABLES T, V
P == << <<0, 0, 0>>, <<2, 0, 0>>, <<0, 3, 0>>, <<0, 0, 4>>, <<3, 3, 3>> >>
Tri == {<<a, b, c>> \in (1..5) \X (1..5) \X (1..5) : a # b /\ b # c /\ a # c /\ a < b /\ a < c}
Num(t) == t[1] * 100 + t[2] * 10 + t[3]
M == [k \in 1..Len(T) |-> <<P[T[k][1]], P[T[k][2]], P[T[k][3]]>>]

Init == T = <<>> /\ V = <<>>
AddTri == /\ V = <<>> /\ Len(T) < MaxT
          /\ \E t \in Tri : (IF Len(T) = 0 THEN TRUE ELSE Num(T[Len(T)]) <= Num(t)) /\ T' = Append(T, t)
          /\ V' = V
(* points as multiples of 12, so that means of up to four are exact *)
AddPt == /\ T = <<>> /\ Len(V) < MaxP
         /\ \E x \in 0..Span : \E y \in 0..1 :
              /\ IF Len(V) = 0 THEN TRUE ELSE 12 * x >= V[Len(V)][1]
              /\ V' = Append(V, <<12 * x, 24 * y, 0>>)
         /\ T' = T
Next == AddTri \/ AddPt
Spec == Init /\ [][Next]_<<T, V>>

(* paired edges imply that the areas cancel; both facts survive moving the   *)
(* mesh and turning it inside out, but not dropping a triangle               *)
Turn(S) == [k \in 1..Len(S) |-> Turned(S[k])]
Shift(S) == [k \in 1..Len(S) |-> [v \in 1..3 |-> Add3(S[k][v], <<1, -2, 5>>)]]
Meshes ==
  /\ Matching(M) => Cancels(M)
  /\ Matching(M) = Matching(Turn(M)) /\ Cancels(M) = Cancels(Turn(M))
  /\ Matching(M) = Matching(Shift(M)) /\ Cancels(M) = Cancels(Shift(M))
  /\ (Matching(M) /\ Len(M) > 0) => \A k \in 1..Len(M) : ~Matching(SubSeq(M, 1, k - 1) \o SubSeq(M, k + 1, Len(M)))
  /\ (Matching(M) /\ Len(M) > 0) => ~Matching(Append(M, M[1])) /\ ~Matching(Append(M, Turned(M[1])))

D == 30
Repairs ==
  LET W == Repair(V, D) IN
  /\ Small(V, W, D, 0)
  /\ Together(V, W)
  /\ Untouched(V, W, D)
  /\ Separated(V, D) => Merged(V, W, D) /\ Apart(V, W, D) /\ Repair(W, D) = W
=============================================================================
