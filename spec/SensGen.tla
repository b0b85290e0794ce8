------------------------------ MODULE SensGen -------------------------------
(* Random generators and histories of studies.                               *)
EXTENDS Sens, Json
CONSTANTS MaxLen, Csv
VARIABLES tpl, s, hist, bang
\* depends on the state so that TLC does not evaluate it only once
R(S) == RandomElement(IF bang THEN S ELSE S)
Z3 == <<0, 0, 0, 1>>
RV(x) == <<R(-4..4), R(-4..4), R(-4..4), R({1, 1, 2})>>
RD(x) == IF R(1..3) = 1 THEN Z3 ELSE <<R(-2..2), R(-2..2), R(-2..2), 1>>
RF(x) == [b |-> RV(1), d |-> <<RD(1), RD(2), RD(3)>>, q |-> IF R(1..3) = 1 THEN RD(4) ELSE Z3]
(* boxes: whole numbers, sizes growing *)
BF(x) == [b |-> <<R(-3..3), R(-3..3), R(-3..3), 1>>, d |-> <<RD(1), RD(2), RD(3)>>, q |-> Z3]
PD(x) == IF R(1..2) = 1 THEN Z3 ELSE <<R(0..1), R(0..1), R(0..1), 1>>
SF(x) == [b |-> <<R(3..7), R(3..7), R(3..7), 1>>, d |-> <<PD(1), PD(2), PD(3)>>, q |-> Z3]
Zero == [b |-> Z3, d |-> <<Z3, Z3, Z3>>, q |-> Z3]
(* two corners may coincide and move apart *)
Sheet(x) == LET p == <<RF(1), RF(2), RF(3), RF(4)>> w == R(1..4) IN
            [k |-> "sheet", n |-> R({1, 1, 2}), p |-> IF w = 1 THEN [p EXCEPT ![2] = [b |-> p[1].b, d |-> [p[1].d EXCEPT ![3] = RD(5)], q |-> p[1].q]] ELSE p]
Box(x) == [k |-> "box", n |-> R({1, 1, 2}), p |-> <<BF(1), SF(1)>>]
Vals == {<<0, 1>>, <<1, 1>>, <<2, 1>>, <<-1, 1>>, <<1, 2>>, <<3, 2>>, <<-5, 2>>, <<4, 1>>}
LVals == {<<0, 1>>, <<1, 1>>, <<2, 1>>, <<-1, 1>>}
Perts == {<<5, 1>>, <<10, 1>>, <<25, 1>>, <<50, 1>>, <<-20, 1>>, <<100, 1>>, <<2, 1>>}
LPerts == {<<25, 1>>, <<50, 1>>, <<100, 1>>, <<-50, 1>>}
SP(x) == <<R(-5..5), R(-3..3), R(-3..3), R(-3..3), R(-1..1)>>
Tpl(x) ==
  LET ana == R(1..3) = 1
      n == R(1..3)
      cs == IF ana THEN <<Box(1), Box(2), Box(3)>> ELSE <<IF R(1..4) = 1 THEN Box(1) ELSE Sheet(1), Sheet(2), IF R(1..2) = 1 THEN Box(3) ELSE Sheet(3)>>
      ps == <<SP(1), SP(2)>>
      va == IF ana THEN LVals ELSE Vals
  IN [op |-> "tpl", comps |-> SubSeq(cs, 1, n), dens |-> IF ana THEN SubSeq(<<R(1..4), R(1..4), R(1..4)>>, 1, n) ELSE <<>>,
      props |-> SubSeq(ps, 1, R(0..2)), mv |-> IF R(1..3) = 1 THEN BF(9) ELSE Zero, def |-> <<R(va), R(va), R(va)>>, named |-> R({0, 1})]
(* parameters in some order, some of the others overridden *)
Perms == {<<1>>, <<2>>, <<3>>, <<1, 2>>, <<2, 1>>, <<3, 1>>, <<2, 3>>, <<1, 2, 3>>, <<3, 2, 1>>, <<2, 3, 1>>}
Req(x) ==
  LET ana == tpl.dens # <<>>
      va == IF ana THEN LVals ELSE Vals
      p == R(Perms)
      o == {k \in Num : \A j \in 1..Len(p) : p[j] # k}
      q == IF o = {} THEN <<>> ELSE IF R(1..3) = 1 THEN <<>> ELSE <<R(o)>>
      z == R(1..6)
      w == <<R(va), R(va), R(va)>>
      v == IF z <= 3 THEN [w EXCEPT ![z] = <<0, 1>>] ELSE w
  IN [op |-> "dvdp", par |-> [j \in 1..Len(p) |-> <<p[j], v[p[j]]>>], ovr |-> [j \in 1..Len(q) |-> <<q[j], v[q[j]]>>],
      pert |-> IF ana THEN R(LPerts) ELSE R(Perts), stl |-> R({"no", "no", "plain", "pre"})]
Good(e) ==
  LET envs == {Nominal(tpl, e)} \cup {Shifted(tpl, e, j) : j \in 1..Len(e.par)} IN
  \A v \in envs : \A c \in 1..Len(tpl.comps) : tpl.comps[c].k = "box" =>
    LET z == FV(tpl.comps[c].p[2], v) IN z[1] > 0 /\ z[2] > 0 /\ z[3] > 0 /\ (tpl.dens # <<>> => OnLattice(LBox(tpl, c, v)))
Init == tpl = <<>> /\ s = NoStudy /\ hist = <<>> /\ bang = FALSE
Next ==
  \/ /\ tpl = <<>>
     /\ \E t \in {TLCEval(Tpl(hist))} : tpl' = t /\ hist' = <<t>>
     /\ UNCHANGED <<s, bang>>
  \/ /\ tpl # <<>> /\ Len(hist) < MaxLen
     /\ \E x \in {R(1..10)} : \E e \in {TLCEval(Req(x))} :
          IF (x <= 5 \/ ~Csv) /\ Good(e) THEN s' = Study(s, e) /\ hist' = Append(hist, e)
          ELSE IF Csv THEN s' = s /\ hist' = Append(hist, [op |-> "csv", dir |-> R(0..2)])
          ELSE UNCHANGED <<s, hist>>
     /\ UNCHANGED <<tpl, bang>>
  \/ /\ Len(hist) >= MaxLen /\ ~bang
     /\ bang' = PrintT("@@GEN|" \o ToJson([ev |-> hist]))
     /\ UNCHANGED <<tpl, s, hist>>
=============================================================================
