----------------------------- MODULE Instances -----------------------------
(* Parametric generators and the vehicles they make (P19).  A generator is a *)
(* kind and the set of its parameters that were overridden; a vehicle keeps  *)
(* the parameters its generator had when it was made.  Nothing is shared.    *)
EXTENDS Integers, Sequences, FiniteSets
Zero == <<0, 0, 0>>
IStart == [gens |-> <<>>, inst |-> <<>>]
DoGen(s, kind, kw) == [s EXCEPT !.gens = Append(@, [kind |-> kind, kw |-> kw])]
(* attributes may be assigned until the first vehicle is made: thickness and *)
(* offset functions of the hangar read them whenever they are evaluated      *)
CanSet(s, g) == \A k \in 1..Len(s.inst) : s.inst[k].from # g
DoSet(s, g, n) == [s EXCEPT !.gens[g].kw = @ \cup {n}]
DoCreate(s, g) == [s EXCEPT !.inst = Append(@, [from |-> g, kind |-> s.gens[g].kind, kw |-> s.gens[g].kw, gen |-> FALSE, at |-> Zero])]
DoBuild(s, k) == [s EXCEPT !.inst[k].gen = TRUE, !.inst[k].at = Zero]
DoShift(s, k, v) == IF s.inst[k].gen THEN [s EXCEPT !.inst[k].at = <<@[1] + v[1], @[2] + v[2], @[3] + v[3]>>] ELSE s
=============================================================================
