-------------------------------- MODULE MCTri --------------------------------
(* Facts about appending, for all small tables, lists and tolerances.        *)
EXTENDS Tri
CONSTANTS Coords, MaxRows, Steps
VARIABLES f, prev, e, n
vars == <<f, prev, e, n>>
P(x) == <<x, 0, 0>>
Pts == <<P(0), P(4), P(0)>>
Row(x, v) == <<P(x), <<v, 10, 0>>>>
Rows == {Row(x, v) : x \in Coords, v \in {2, 8}}
TabsOf == UNION {[1..k -> Rows] : k \in 1..MaxRows}
Es == {[par |-> <<"a">>, tabs |-> <<t, u>>, list |-> l, tol |-> tol, rt |-> 3] : t, u \in TabsOf, l \in {<<1, 2>>, <<2, 1>>, <<0, 1>>, <<2, 0>>}, tol \in {2, 6}}
Init == f = NewFile(Pts) /\ prev = f /\ e = <<>> /\ n = 0
Next == /\ n < Steps
        /\ \E x \in Es : e' = x /\ f' = Append1(f, x.tabs, x)
        /\ prev' = f /\ n' = n + 1
RowsOf(x) == Join(x.tabs, x.list, Len(x.list))
Last == f.arrays[Len(f.arrays)][2]
Did == n > 0
(* earlier arrays and the points stay *)
Kept == Did => f.pts = prev.pts /\ Len(f.arrays) = Len(prev.arrays) + 1 /\ SubSeq(f.arrays, 1, Len(prev.arrays)) = prev.arrays
OnePerPoint == Did => Len(Last) = Len(f.pts)
SamePointSameValue == \A i, j \in 1..Len(f.pts) : Did /\ f.pts[i] = f.pts[j] => Last[i] = Last[j]
ZeroIfUnmatched == Did => \A i \in 1..Len(f.pts) : Matches(f.pts[i], RowsOf(e), e.tol) = {} => Last[i] = <<0, 0, 0>>
FromARow == Did => \A i \in 1..Len(f.pts) : Last[i] # <<0, 0, 0>> => \E r \in 1..Len(RowsOf(e)) : Close(f.pts[i], RowsOf(e)[r][1], e.tol) /\ Last[i] = Rounded(RowsOf(e)[r][2], e.rt)
CombinedIgnored == Did => RowsOf(e) = RowsOf([e EXCEPT !.list = SelectSeq(@, LAMBDA k : k # 0)])
WiderMatchesMore == Did => Matched(f.pts, RowsOf(e), e.tol) <= Matched(f.pts, RowsOf(e), e.tol + 4)
=============================================================================
