------------------------------ MODULE FaultGen ------------------------------
(* Random histories of requests on vehicles whose patches may fail.          *)
EXTENDS Meshing, TLC, Json
CONSTANTS MaxLen
VARIABLES s, hist, head, bang
\* depends on the state so that TLC does not evaluate it only once
R(S) == RandomElement(IF bang THEN S ELSE S)
Do(op, s2) == s' = s2 /\ hist' = Append(hist, op) /\ UNCHANGED <<head, bang>>
Comp(x) == NewComp(R(1..3), R({TRUE, FALSE, FALSE}), R(1..2))
Init == s = <<>> /\ hist = <<>> /\ bang = FALSE /\ head = <<>>
Setup == /\ head = <<>>
         /\ \E n \in {R(1..3)}, a \in {Comp(1)}, b \in {Comp(2)}, d \in {Comp(3)}, p \in {R(1..4) = 1}, cmp \in {R(1..4) = 1} :
              LET q == SubSeq(<<a, b, d>>, 1, n) IN s' = q /\ head' = <<[comps |-> q, par |-> p, wrap |-> cmp]>>
         /\ UNCHANGED <<hist, bang>>
K == 1..Len(s)
Sub(k) == {x \in SUBSET (1..s[k].base) : Cardinality(x) <= 2}
(* vertex numbers: where on its grid a failing patch fails, and with what error *)
Errors == {"own", "ArithmeticError", "ZeroDivisionError", "FloatingPointError", "OverflowError", "ValueError", "TypeError", "KeyError",
           "IndexError", "AttributeError", "RuntimeError", "NotImplementedError", "RecursionError", "AssertionError", "OSError",
           "MemoryError", "LinAlgError", "StopIteration"}
Arm == \E k \in {R(K)} : \E f \in {R(Sub(k) \ {{}})}, i \in {R(0..s[k].res)}, j \in {R(0..s[k].res)}, x \in {R(Errors)} :
         Do([op |-> "arm", k |-> k, f |-> f, i |-> i, j |-> j, x |-> x], [s EXCEPT ![k] = Armed(@, f)])
Clear == \E k \in {R(K)} : Do([op |-> "arm", k |-> k, f |-> {}, i |-> 0, j |-> 0, x |-> "own"], [s EXCEPT ![k] = Armed(@, {})])
Built(k) == IF MustFail(s[k]) THEN s[k] ELSE Completed(s[k])
Mesh == \E k \in {R(K)}, o \in {R({"mesh", "surface", "analyse", "check"})} : Do([op |-> o, k |-> k], [s EXCEPT ![k] = Built(k)])
Export == Do([op |-> "export"], [k \in K |-> Built(k)])
Analyse == Do([op |-> "vanalyse"], [k \in K |-> Built(k)])
Move == Do([op |-> "move"], [k \in K |-> Moved(s[k])])
Gen == Do([op |-> "gen"], [k \in K |-> Fresh(s[k])])
Pk(x) == IF x <= 25 THEN "arm" ELSE IF x <= 40 THEN "clear" ELSE IF x <= 62 THEN "mesh" ELSE IF x <= 80 THEN "export"
         ELSE IF x <= 86 THEN "vanalyse" ELSE IF x <= 94 THEN "move" ELSE "gen"
Next ==
  \/ Setup
  \/ /\ head # <<>> /\ Len(hist) < MaxLen
     /\ \E a \in {Pk(R(1..100))} :
          CASE a = "arm" -> Arm [] a = "clear" -> Clear [] a = "mesh" -> Mesh [] a = "export" -> Export
            [] a = "vanalyse" -> Analyse [] a = "move" -> Move [] a = "gen" -> Gen
  \/ /\ Len(hist) >= MaxLen /\ ~bang
     /\ bang' = PrintT("@@GEN|" \o ToJson([head |-> head[1], ev |-> hist]))
     /\ UNCHANGED <<s, hist, head>>
=============================================================================
