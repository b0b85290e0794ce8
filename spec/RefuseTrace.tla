----------------------------- MODULE RefuseTrace -----------------------------
(* Recorded requests against Refuse (P20).                                   *)
EXTENDS Refuse, TraceLib
VARIABLES h, i
Bad(e) ==
  IF e.op = "lost" THEN {"lost"}
  ELSE (IF e.err = "Hung" THEN {"never returned"}
        ELSE IF Meaning(e) /\ e.err # "" THEN {"meaningful request refused"}
        ELSE IF ~Meaning(e) /\ e.err = "" THEN {"meaningless request accepted"} ELSE {})
       \cup (IF e.kept THEN {} ELSE {"arguments changed"})
Init == h \in 1..NH /\ i = 1
Next == /\ i <= Len(Hist[h].ev)
        /\ Report(h, i, Bad(Hist[h].ev[i]))
        /\ i' = i + 1
        /\ h' = h
=============================================================================
