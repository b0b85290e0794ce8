----------------------------- MODULE MeshCheck -----------------------------
(* Checking and repairing triangle meshes (P08).  A mesh is a sequence of    *)
(* triangles of integer points.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Mag(x) == IF x < 0 THEN -x ELSE x
Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Add3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
AreaVec(t) == Cross3(Sub3(t[2], t[1]), Sub3(t[3], t[1]))
RECURSIVE SumArea(_, _, _)
SumArea(T, a, b) ==
  IF a > b THEN <<0, 0, 0>> ELSE IF a = b THEN AreaVec(T[a])
  ELSE LET m == (a + b) \div 2 IN Add3(SumArea(T, a, m), SumArea(T, m + 1, b))
Cancels(T) == SumArea(T, 1, Len(T)) = <<0, 0, 0>>

Directed(T) == TLCEval(UNION {{<<T[k][1], T[k][2]>>, <<T[k][2], T[k][3]>>, <<T[k][3], T[k][1]>>} : k \in 1..Len(T)})
Matching(T) ==
  LET D == Directed(T) IN
  /\ Cardinality(D) = 3 * Len(T)
  /\ \A e \in D : e[1] # e[2] /\ <<e[2], e[1]>> \in D
Verdict(T, area, lines) == (area => Cancels(T)) /\ (lines => Matching(T))

Turned(t) == <<t[1], t[3], t[2]>>

---------------------------------------------------------------------------
(* Repair with distance d of the points V (a sequence) yields W.             *)
Coord == 1..3
Close(p, q, d) == \A c \in Coord : Mag(p[c] - q[c]) <= d
(* along each axis, being close is an equivalence with room to spare *)
Separated(V, d) ==
  \A c \in Coord :
    LET X == {V[k][c] : k \in 1..Len(V)}
        N == {<<x, y>> \in X \X X : Mag(x - y) <= d - 2}
    IN /\ \A x \in X : \A y \in X : <<x, y>> \in N \/ Mag(x - y) >= d + 2
       /\ \A e \in N : \A z \in X : <<e[2], z>> \in N => <<e[1], z>> \in N
Small(V, W, d, eps) == \A k \in 1..Len(V) : \A c \in Coord : Mag(W[k][c] - V[k][c]) <= d + eps
(* classes: numbers equal exactly where the repaired points are equal *)
Together(V, cls) == \A j \in 1..Len(V) : \A k \in 1..Len(V) : V[j] = V[k] => cls[j] = cls[k]
Untouched(V, W, d) ==
  \A j \in 1..Len(V) : (\A k \in 1..Len(V) : V[k] = V[j] \/ ~Close(V[j], V[k], d)) => W[j] = V[j]
Merged(V, cls, d) == \A j \in 1..Len(V) : \A k \in 1..Len(V) : Close(V[j], V[k], d) => cls[j] = cls[k]
Apart(V, cls, d) == \A j \in 1..Len(V) : \A k \in 1..Len(V) : ~Close(V[j], V[k], d) => cls[j] # cls[k]

(* One way to do it: along each axis points are grouped from the smallest    *)
(* coordinate, a group holding what lies less than d above its first; points *)
(* in the same group along all axes are replaced by their mean.              *)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Groups(_, _)
Groups(X, d) ==
  IF X = {} THEN {} ELSE LET m == MinOf(X) g == {x \in X : x - m < d} IN {g} \cup Groups(X \ g, d)
Mates(V, d, k) ==
  LET G == [c \in Coord |-> CHOOSE g \in Groups({V[j][c] : j \in 1..Len(V)}, d) : V[k][c] \in g]
  IN {j \in 1..Len(V) : \A c \in Coord : V[j][c] \in G[c]}
RECURSIVE SumOver(_, _, _)
SumOver(V, S, c) == IF S = {} THEN 0 ELSE LET j == MinOf(S) IN V[j][c] + SumOver(V, S \ {j}, c)
(* points scaled by f, a common multiple of all group sizes, so means are integers *)
Repair(V, d) ==
  [k \in 1..Len(V) |-> LET S == Mates(V, d, k) IN [c \in Coord |-> SumOver(V, S, c) \div Cardinality(S)]]
=============================================================================
