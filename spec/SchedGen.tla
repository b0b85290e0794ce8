------------------------------ MODULE SchedGen ------------------------------
(* Schedules of a build: the order in which tasks finish, for any number of  *)
(* patches and workers, as the worker model of Meshing allows.               *)
EXTENDS Meshing, TLC, Json
CONSTANTS MaxN, MaxW
VARIABLES b, par, rf, res, bang
\* depends on the state so that TLC does not evaluate it only once
R(S) == RandomElement(IF bang THEN S ELSE S)
Init == b = NewBuild(0, 0) /\ par = TRUE /\ rf = FALSE /\ res = 1 /\ bang = FALSE
Setup == /\ b.w = 0
         /\ \E n \in {R(2..MaxN)}, w \in {R(1..MaxW)}, f \in {R(1..3) = 1}, r \in {R(1..2)} :
              /\ par' = (R(1..8) > 1) /\ rf' = f /\ res' = r
              /\ b' = NewBuild(IF f THEN 2 * n ELSE n, w)
         /\ UNCHANGED bang
Next ==
  \/ Setup
  \/ /\ b.w > 0 /\ ~Over(b) /\ UNCHANGED <<par, rf, res, bang>>
     \* workers are kept busy: a task waits only for a free worker
     /\ IF CanStart(b) THEN b' = DoStart(b) ELSE \E p \in {R(b.run)} : b' = DoFinish(b, p, FALSE)
  \/ /\ b.w > 0 /\ Over(b) /\ ~bang
     /\ bang' = PrintT("@@GEN|" \o ToJson([n |-> b.n, w |-> b.w, par |-> par, rf |-> rf, res |-> res, order |-> b.done]))
     /\ UNCHANGED <<b, par, rf, res>>
=============================================================================
