------------------------------ MODULE InstGen ------------------------------
(* Random interleavings of generators and vehicles, chosen by TLC.           *)
EXTENDS Instances, TLC, Json
CONSTANTS MaxLen
VARIABLES s, hist, bang
\* depends on the state so that TLC does not evaluate it only once
R(S) == RandomElement(IF bang THEN S ELSE S)
Kinds == {"D21", "Falcon9", "Finner", "HIFiRE4", "HIFiRE8", "HTV", "ReFEX", "Waverider", "Wedge", "X43", "User", "User"}
Cheap == {"Falcon9", "Finner", "Wedge", "User"}
Used == {s.gens[g].kind : g \in 1..Len(s.gens)}
Do(op, s2) == s' = s2 /\ hist' = Append(hist, op) /\ bang' = bang
Init == s = IStart /\ hist = <<>> /\ bang = FALSE
New == \E k \in {IF R(1..3) = 1 /\ Used # {} THEN R(Used) ELSE IF R(1..2) = 1 THEN R(Cheap) ELSE R(Kinds)}, kw \in {R(SUBSET {1, 2})} :
         Do([op |-> "gen", kind |-> k, kw |-> kw], DoGen(s, k, kw))
Free == {g \in 1..Len(s.gens) : CanSet(s, g)}
Set == \E g \in {R(Free)}, n \in {R({1, 2})} : Do([op |-> "set", g |-> g, n |-> n], DoSet(s, g, n))
Make == \E g \in {R(1..Len(s.gens))} : Do([op |-> "create", g |-> g], DoCreate(s, g))
Build == \E k \in {R(1..Len(s.inst))} : Do([op |-> "build", k |-> k], DoBuild(s, k))
Shift == \E k \in {R(1..Len(s.inst))}, v \in {<<R(-3..3), R(-3..3), R(-3..3)>>} : Do([op |-> "shift", k |-> k, v |-> v], DoShift(s, k, v))
Unbuilt == {k \in 1..Len(s.inst) : ~s.inst[k].gen}
Pick(x) == IF s.gens = <<>> THEN "new"
           ELSE IF s.inst = <<>> THEN IF x <= 50 THEN "make" ELSE "new"
           ELSE IF x <= 18 /\ Len(s.gens) < 4 THEN "new" ELSE IF x <= 28 /\ Free # {} THEN "set"
           ELSE IF x <= 50 /\ Len(s.inst) < 5 THEN "make" ELSE IF x <= 85 THEN "build" ELSE "shift"
Next ==
  \/ /\ Len(hist) < MaxLen
     /\ \E a \in {Pick(R(1..100))} :
          CASE a = "new" -> New [] a = "set" -> Set [] a = "make" -> Make [] a = "build" -> Build [] a = "shift" -> Shift
  \/ /\ Len(hist) >= MaxLen /\ ~bang
     /\ bang' = PrintT("@@GEN|" \o ToJson(hist))
     /\ UNCHANGED <<s, hist>>
=============================================================================
