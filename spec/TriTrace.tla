------------------------------ MODULE TriTrace ------------------------------
(* Recorded appends against Tri (P17).  Observations are in millionths.      *)
EXTENDS Tri, TraceLib
VARIABLES h, i, f
N(o, x) == Abs(o - 1000 * x) <= 1
Same(o, r) == Len(o) = Len(r) /\ \A k \in 1..Len(r) : Len(o[k]) = Len(r[k]) /\ \A c \in 1..Len(r[k]) : N(o[k][c], r[k][c])
ArrBad(o, a) ==
  IF Len(o) # Len(a) THEN {"data arrays"}
  ELSE (IF \A k \in 1..Len(a) : o[k][1] = a[k][1] \o "_sens" THEN {} ELSE {"array name"})
  \cup (IF \A k \in 1..Len(a) : Same(o[k][2], a[k][2]) THEN {} ELSE {"wrong values at a point"})
Bad(e) ==
  IF e.op = "lost" THEN {"lost"}
  ELSE IF e.op = "file" THEN {}
  ELSE IF e.err # "" THEN {"failed"}
  ELSE LET rows == Join(e.tabs, e.list, Len(e.list))
           n == 3 * Len(e.par)
           res == Result(f.pts, rows, e.tol, e.rt, n)
           m == Matched(f.pts, rows, e.tol)
       IN ArrBad(e.arrays, Append1(f, e.tabs, e).arrays)
          \cup (IF e.kept THEN {} ELSE {"surface changed"})
          \cup (IF Abs(e.frac * Len(f.pts) - 1000000 * m) <= 6 THEN {} ELSE {"fraction"})
          \cup (IF Len(e.comb) = Len(f.pts) /\ Same(e.comb, [k \in 1..Len(f.pts) |-> f.pts[k] \o res[k]]) THEN {} ELSE {"combined file"})
Init == h \in 1..NH /\ i = 1 /\ f = <<>>
Next == /\ i <= Len(Hist[h].ev)
        /\ LET e == Hist[h].ev[i] IN
           /\ Report(h, i, Bad(e))
           /\ f' = CASE e.op = "file" -> NewFile(e.pts) [] e.op = "append" /\ e.err = "" -> Append1(f, e.tabs, e) [] OTHER -> f
        /\ i' = i + 1
        /\ h' = h
=============================================================================
