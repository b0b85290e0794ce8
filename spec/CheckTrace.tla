----------------------------- MODULE CheckTrace -----------------------------
(* Recorded mesh checks and repairs against MeshCheck (P08).                 *)
(*   check : T triangles of integer points as their stored normals see them  *)
(*   repair: V corner points before, W after (units of a 64th of the lattice *)
(*           scaled by 4), cls classes of equal points after, d distance     *)
EXTENDS MeshCheck, TraceLib
VARIABLES h, i

CheckBad(e) ==
  IF e.err # "" THEN {"failed"}
  ELSE LET want == Verdict(e.T, e.pa, e.ml) IN
       IF e.got = want THEN {} ELSE {IF want THEN "sound mesh rejected" ELSE "unsound mesh accepted"}
RepairBad(e) ==
  IF e.err # "" THEN {"failed"}
  ELSE IF Len(e.W) # Len(e.V) THEN {"triangles lost"}
  ELSE (IF Small(e.V, e.W, e.d, 1) THEN {} ELSE {"moved too far"})
       \cup (IF Together(e.V, e.cls) THEN {} ELSE {"torn apart"})
       \cup (IF Untouched(e.V, e.W, e.d) THEN {} ELSE {"isolated vertex moved"})
       \cup (IF Separated(e.V, e.d) THEN (IF Merged(e.V, e.cls, e.d) THEN {} ELSE {"not merged"})
                                         \cup (IF Apart(e.V, e.cls, e.d) THEN {} ELSE {"merged too much"})
             ELSE {})
Bad(e) == CASE e.op = "check" -> CheckBad(e) [] e.op = "repair" -> RepairBad(e) [] e.op = "lost" -> {"lost"}
Init == h \in 1..NH /\ i = 1
Next == /\ i <= Len(Hist[h].ev)
        /\ Report(h, i, Bad(Hist[h].ev[i]))
        /\ i' = i + 1
        /\ h' = h
=============================================================================
