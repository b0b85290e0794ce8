------------------------------ MODULE MassGen ------------------------------
(* Random histories of analysing vehicles made of boxes.                     *)
EXTENDS Mass, TLC, Json
CONSTANTS MaxLen
VARIABLES s, hist, bang
\* depends on the state so that TLC does not evaluate it only once
R(S) == RandomElement(IF bang THEN S ELSE S)
RB(x) == <<R(-5..5), R(-5..5), R(-5..5), R(1..4), R(1..4), R(1..4)>>
Bx(r) == << <<r[1], r[2], r[3]>>, <<r[1] + r[4], r[2] + r[5], r[3] + r[6]>> >>
RM(x) == IF R(1..2) = 1 THEN <<"t", R(-6..6), R(-6..6), R(-6..6)>> ELSE <<"r", R({"x", "y", "z"}), R(1..3)>>
Init == s = NewV /\ hist = <<>> /\ bang = FALSE
Do(op, s2) == s' = s2 /\ hist' = Append(hist, op) /\ bang' = FALSE
NC == Len(s.base)
Add == \E k \in {R({"swept", "swept", "two", "cubes"})}, p \in {RB(1)}, q \in {RB(2)}, m \in {RM(1)}, w \in {R(0..2)}, res \in {R(1..2)} :
         LET a == Bx(p)
             \* a cube about the lattice point, of even side
             c == << <<q[1] - 1, q[2] - 1, q[3] - 1>>, <<q[1] + 1, q[2] + 1, q[3] + 1>> >>
             comp == CASE k = "swept" -> <<a>> [] k = "two" -> <<a, Bx(q)>> [] k = "cubes" -> <<c>>
             ops == IF w = 0 THEN <<m>> ELSE <<>>
         IN Do([op |-> "add", kind |-> k, c |-> comp, ops |-> ops, res |-> res], AddC(s, comp, ops))
VT == \E m \in {RM(1)} : Do([op |-> "vt", ops |-> <<m>>], AddVT(s, <<m>>))
Ds(x) == LET a == R(1..4) b == R(1..4) c == R(1..4) d == R(1..4) IN SubSeq(<<a, b, c, d>>, 1, NC)
Ana == \E d \in {Ds(1)} : Do([op |-> "analyse", d |-> d], Analyse(s, d))
Aft == \E d \in {Ds(1)} : Do([op |-> "after", d |-> d], AnalyseAfter(s, d))
Gn == Do([op |-> "generate"], Generate(s))
Tr == \E m \in {RM(1)}, k \in {RM(2)} : LET o == <<m, k>> IN Do([op |-> "transform", ops |-> o], Transform(s, o))
Rd == Do([op |-> "results"], s)
Ex == Do([op |-> "export"], s)
Pk(x) == IF NC = 0 THEN "add"
         ELSE IF NC < 4 /\ ~s.gen /\ s.aog = <<>> /\ x <= 40 THEN "add"
         ELSE IF x <= 46 THEN IF s.gen THEN "ana" ELSE "vt"
         ELSE IF x <= 56 THEN "aft"
         ELSE IF x <= 66 THEN "gen"
         ELSE IF x <= 78 THEN IF s.gen THEN "tr" ELSE "vt"
         ELSE IF x <= 90 THEN "ana"
         ELSE IF x <= 95 THEN "read" ELSE IF s.gen THEN "export" ELSE "read"
Next ==
  \/ /\ Len(hist) < MaxLen
     /\ \E a \in {Pk(R(1..100))} :
          CASE a = "add" -> Add [] a = "vt" -> VT [] a = "ana" -> Ana [] a = "aft" -> Aft [] a = "gen" -> Gn [] a = "tr" -> Tr
            [] a = "read" -> Rd [] a = "export" -> Ex
  \/ /\ Len(hist) >= MaxLen /\ ~bang
     /\ bang' = PrintT("@@GEN|" \o ToJson([ev |-> hist]))
     /\ UNCHANGED <<s, hist>>
=============================================================================
