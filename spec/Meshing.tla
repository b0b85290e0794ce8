------------------------------ MODULE Meshing ------------------------------
(* Building the mesh of a component from its patches, by workers that run    *)
(* concurrently, where evaluating a patch may fail (P03, P04).               *)
EXTENDS Integers, Sequences, FiniteSets

Whole(n) == [k \in 1..n |-> k]

---------------------------------------------------------------------------
(* One build: tasks 1..n are handed out in order to w workers.  done holds   *)
(* the finished tasks in order of completion, bad the failed ones.           *)
NewBuild(n, w) == [n |-> n, w |-> w, next |-> 1, run |-> {}, done |-> <<>>, bad |-> {}]
CanStart(b) == b.next <= b.n /\ Cardinality(b.run) < b.w
DoStart(b) == [b EXCEPT !.run = @ \cup {b.next}, !.next = @ + 1]
DoFinish(b, p, fails) ==
  [b EXCEPT !.run = @ \ {p}, !.done = IF fails THEN @ ELSE Append(@, p), !.bad = IF fails THEN @ \cup {p} ELSE @]
Over(b) == b.next > b.n /\ b.run = {}
(* A build with a failed task yields nothing; it may end as soon as the      *)
(* failure is seen.  Otherwise the mesh has the patches in their order,      *)
(* whatever the order of completion.                                         *)
CanEnd(b) == b.bad # {} \/ Over(b)
Failed(b) == b.bad # {}
RECURSIVE Pick(_, _)
Pick(n, S) == IF n = 0 THEN <<>> ELSE IF n \in S THEN Append(Pick(n - 1, S), n) ELSE Pick(n - 1, S)
Assembled(b) == Pick(b.n, {b.done[k] : k \in 1..Len(b.done)})

---------------------------------------------------------------------------
(* Requests as the caller sees them.  A component has n patches (its base    *)
(* patches, and their mirror images when rf), a level (number of shifts of   *)
(* its geometry), the set of base patches that cannot be evaluated, whether  *)
(* a mesh of the current geometry has been completed before (the result may  *)
(* then be taken from memory), and the level its file was written at.        *)
NewComp(base, rf, res) == [base |-> base, rf |-> rf, res |-> res, lvl |-> 0, faults |-> {}, built |-> FALSE, file |-> <<>>]
Patches(c) == IF c.rf THEN 2 * c.base ELSE c.base
MayFail(c) == c.faults # {}
MustFail(c) == c.faults # {} /\ ~c.built

Moved(c) == [c EXCEPT !.lvl = @ + 1, !.built = FALSE]
Fresh(c) == [c EXCEPT !.lvl = 0, !.built = FALSE]
Armed(c, S) == [c EXCEPT !.faults = S]
Completed(c) == [c EXCEPT !.built = TRUE]
(* a request on several components failed: those without a failing patch     *)
(* may have been meshed before it did                                        *)
Touched(c) == IF MayFail(c) THEN c ELSE Completed(c)
Written(c) == [c EXCEPT !.built = TRUE, !.file = <<c.lvl>>]
=============================================================================
