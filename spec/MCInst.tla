------------------------------- MODULE MCInst -------------------------------
(* All interleavings of a few generators and vehicles.  Each vehicle also    *)
(* lives alone in solo, stepped only by its own operations: the interleaved  *)
(* vehicle must always equal the lonely one.                                 *)
EXTENDS Instances
CONSTANTS MaxGen, MaxInst, MaxSteps
VARIABLES s, solo, n
vars == <<s, solo, n>>
Kinds == {"A", "B"}
Names == {"p", "q"}
Init == s = IStart /\ solo = <<>> /\ n = 0
Step == n < MaxSteps /\ n' = n + 1
NewG == Step /\ Len(s.gens) < MaxGen /\ UNCHANGED solo /\ \E k \in Kinds, kw \in SUBSET Names : s' = DoGen(s, k, kw)
SetG == Step /\ UNCHANGED solo /\ \E g \in 1..Len(s.gens), x \in Names : CanSet(s, g) /\ s' = DoSet(s, g, x)
Make == /\ Step /\ Len(s.inst) < MaxInst
        /\ \E g \in 1..Len(s.gens) : /\ s' = DoCreate(s, g)
                                     /\ solo' = Append(solo, DoCreate(DoGen(IStart, s.gens[g].kind, s.gens[g].kw), 1))
Build == Step /\ \E k \in 1..Len(s.inst) : s' = DoBuild(s, k) /\ solo' = [solo EXCEPT ![k] = DoBuild(@, 1)]
Shift == Step /\ \E k \in 1..Len(s.inst), v \in {<<1, 0, 0>>, <<0, 2, -1>>} : s' = DoShift(s, k, v) /\ solo' = [solo EXCEPT ![k] = DoShift(@, 1, v)]
Next == NewG \/ SetG \/ Make \/ Build \/ Shift
Alone == \A k \in 1..Len(s.inst) : [s.inst[k] EXCEPT !.from = 1] = solo[k].inst[1]
=============================================================================
