------------------------------ MODULE MCRefuse ------------------------------
(* What acceptance is for: the directed boundary edges of the patches of an  *)
(* accepted closed swept body cancel, cell by cell; of a refused one some    *)
(* remain (or its ends cannot be closed).                                    *)
EXTENDS Refuse, TLC
CONSTANTS Pts, Res
VARIABLE b
(* squares and triangles, with one edge possibly misplaced, dropped or reversed *)
Ring(x, n) == [i \in 1..n |-> <<<<x, i>>, <<x, Prev(n, i)>>>>]
Wrong(r, k, what) ==
  CASE what = "" -> r
    [] what = "gap" -> [r EXCEPT ![k][2] = <<r[k][2][1], r[k][2][2] + 10>>]
    [] what = "short" -> SubSeq(r, 1, Len(r) - 1)
    [] what = "turned" -> [r EXCEPT ![k] = <<@[2], @[1]>>]
Bodies ==
  {[secs |-> [j \in 1..m |-> IF j = w THEN Wrong(Ring(j, n), k, what) ELSE Ring(j, n)], close |-> c, re |-> re, rs |-> rs] :
     m \in 2..3, n \in 3..4, w \in 1..3, k \in 1..2, what \in {"", "gap", "short", "turned"}, c \in BOOLEAN,
     re \in {<<>>} \cup [1..4 -> Res], rs \in Res}
(* cells along edge i of a section *)
Cells(x, i) == IF x.re = <<>> THEN x.rs ELSE x.re[i]
(* free boundary of the side patches at one end: the edges of that section; of the end patch: the same *)
Side(x, s) == UNION {{<<s[i][1], s[i][2], Cells(x, i), k>> : k \in 1..Cells(x, i)} : i \in 1..Len(s)}
Opp(i) == IF i <= 2 THEN i ELSE i - 2
(* an end patch has as many cells on opposite edges: those of its first two *)
Cap(x, s) == UNION {{<<s[i][1], s[i][2], Cells(x, Opp(i)), k>> : k \in 1..Cells(x, Opp(i))} : i \in 1..4}
Init == b \in Bodies
Next == UNCHANGED b
(* neighbouring side patches meet along the sweep through the common corner *)
Joined(x) == \A j \in 1..Len(x.secs) : Loop(x.secs[j])
Matched(x) == \A j \in 1..Len(x.secs) : Len(x.secs[j]) = Len(x.secs[1])
Capped(x) == ~x.close \/ (Len(x.secs[1]) = 4 /\ \A j \in {1, Len(x.secs)} : Side(x, x.secs[j]) = Cap(x, x.secs[j]))
Sound == SweptOk(b) => Joined(b) /\ Matched(b) /\ Capped(b)
Complete == Joined(b) /\ Matched(b) /\ Capped(b) => SweptOk(b)
(* arcs: the four acceptance cases on small points *)
P3 == {<<x, y, z>> : x \in Pts, y \in Pts, z \in Pts}
ASSUME ArcMeaning == \A a \in P3, p \in P3 : LET e == [a |-> a, b |-> p, c |-> <<0, 0, 0>>] IN
  /\ a = p => ~ArcOk(e)
  /\ p = <<-a[1], -a[2], -a[3]>> => ~ArcOk(e)
  /\ ArcOk(e) => ArcOk([a |-> p, b |-> a, c |-> <<0, 0, 0>>])
  /\ (Sq3(a) = Sq3(p) /\ a # p /\ p # <<-a[1], -a[2], -a[3]>>) => ArcOk(e)
ASSUME EveryThing == \A op \in {"v+", "v-", "v==", "dot", "line+", "patch+", "patch-", "v*", "v/", "v*=", "v/=", "Vector3", "Bezier", "SubRangedPath", "ReversedPath", "ArcLength"} :
  \E x \in Things : OperandOk(op, x) /\ \E y \in Things : ~OperandOk(op, y)
=============================================================================
