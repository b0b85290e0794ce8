--------------------------------- MODULE Tri ---------------------------------
(* Sensitivity tables and surface files (P17).                               *)
(* A study's tables are written to directories; disk[d] is what directory d  *)
(* holds.  A surface file has points, cells and data arrays; appending       *)
(* matches its points against tables of rows <<position, values>>.           *)
(* Positions, tolerances and values are integers (thousandths).              *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x

(* tables of the files listed, one after the other; the combined file is not matched *)
RECURSIVE Join(_, _, _)
Join(tabs, list, k) == IF k = 0 THEN <<>> ELSE Join(tabs, list, k - 1) \o (IF list[k] = 0 THEN <<>> ELSE tabs[list[k]])
Close(p, q, tol) == \A c \in 1..3 : Abs(p[c] - q[c]) < tol
Matches(p, rows, tol) == {r \in 1..Len(rows) : Close(p, rows[r][1], tol)}
First(S) == CHOOSE r \in S : \A q \in S : r <= q
Rounded(v, rt) == [c \in 1..Len(v) |-> IF Abs(v[c]) < rt THEN 0 ELSE v[c]]
Nothing(n) == [c \in 1..n |-> 0]
(* values at a point: n numbers *)
At(p, rows, tol, rt, n) == LET S == Matches(p, rows, tol) IN IF S = {} THEN Nothing(n) ELSE Rounded(rows[First(S)][2], rt)
Result(pts, rows, tol, rt, n) == [i \in 1..Len(pts) |-> At(pts[i], rows, tol, rt, n)]
Matched(pts, rows, tol) == Cardinality({i \in 1..Len(pts) : Matches(pts[i], rows, tol) # {}})
(* the data array of parameter j *)
Column(res, j) == [i \in 1..Len(res) |-> SubSeq(res[i], 3 * j - 2, 3 * j)]

NewFile(pts) == [pts |-> pts, arrays |-> <<>>]
Append1(s, tabs, e) ==
  LET rows == Join(tabs, e.list, Len(e.list))
      n == 3 * Len(e.par)
      res == Result(s.pts, rows, e.tol, e.rt, n)
  IN [s EXCEPT !.arrays = @ \o [j \in 1..Len(e.par) |-> <<e.par[j], Column(res, j)>>]]
=============================================================================
