------------------------------- MODULE TriGen -------------------------------
(* Random surface files, tables and appends.  Positions are multiples of     *)
(* four and tolerances odd multiples of two, values even and rounding        *)
(* tolerances odd, so that comparisons are never on the edge.                *)
EXTENDS Tri, TLC, Json
CONSTANTS MaxLen
VARIABLES f, hist, bang
\* depends on the state so that TLC does not evaluate it only once
R(S) == RandomElement(IF bang THEN S ELSE S)
Base == {<<0, 0, 0>>, <<1000, 0, 0>>, <<1000, 500, -2000>>, <<-3000, 248, 0>>, <<0, 1000, 0>>, <<500, 500, 500>>, <<0, 0, 1000>>}
Near(x) == LET b == R(Base) IN <<b[1] + R({0, 0, 4, -4, 8}), b[2] + R({0, 0, 0, 4, -8}), b[3] + R({0, 0, 0, -4, 4, 12})>>
Pts(x) == LET n == R(1..6) IN SubSeq(<<Near(1), Near(2), Near(3), Near(4), Near(5), Near(6)>>, 1, n)
Num(x) == R({0, 2, -2, 4, 10, -10, 1000, -2500, 400, 123456})
Row(n, x) == <<Near(x), [c \in 1..(3 * n) |-> Num(c)]>>
Tab(n, x) == LET k == R(1..5) IN SubSeq(<<Row(n, 1), Row(n, 2), Row(n, 3), Row(n, 4), Row(n, 5)>>, 1, k)
Tabs(n, x) == LET k == R(1..3) IN SubSeq(<<Tab(n, 1), Tab(n, 2), Tab(n, 3)>>, 1, k)
Pars == {<<"a">>, <<"b_2">>, <<"a", "b_2">>, <<"width", "a">>, <<"x", "y", "d">>}
Lists(k) == IF k = 1 THEN {<<1>>, <<0, 1>>, <<1, 0>>} ELSE IF k = 2 THEN {<<1, 2>>, <<2, 1>>, <<2>>, <<1, 0, 2>>} ELSE {<<1, 2, 3>>, <<3, 1, 2>>, <<2, 3>>, <<3, 0, 2, 1>>}
App(x) == LET p == R(Pars) t == Tabs(Len(p), 1) IN
  [op |-> "append", par |-> p, tabs |-> t, list |-> R(Lists(Len(t))), tol |-> R({2, 2, 6, 10}), rt |-> R({1, 3, 3, 11}), out |-> R(0..2), name |-> R({0, 1})]
Init == f = <<>> /\ hist = <<>> /\ bang = FALSE
Next ==
  \/ /\ hist = <<>>
     /\ \E p \in {TLCEval(Pts(hist))} : f' = NewFile(p) /\ hist' = <<[op |-> "file", pts |-> p]>>
     /\ UNCHANGED bang
  \/ /\ hist # <<>> /\ Len(hist) < MaxLen
     /\ \E e \in {TLCEval(App(hist))} : f' = Append1(f, e.tabs, e) /\ hist' = Append(hist, e)
     /\ UNCHANGED bang
  \/ /\ Len(hist) >= MaxLen /\ ~bang
     /\ bang' = PrintT("@@GEN|" \o ToJson([ev |-> hist]))
     /\ UNCHANGED <<f, hist>>
=============================================================================
