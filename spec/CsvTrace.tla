------------------------------ MODULE CsvTrace ------------------------------
(* Recorded tables of studies (P17).  A directory holds what the study held  *)
(* when it was last written there; nothing is written before a study was     *)
(* made.  held and after are what the study holds before and after writing,  *)
(* disk what the three directories hold.                                     *)
EXTENDS Integers, Sequences, TraceLib
VARIABLES h, i, ready, disk
RECURSIVE Concat(_, _)
Concat(t, k) == IF k = 0 THEN <<>> ELSE Concat(t, k - 1) \o t[k]
Holds(o, w) ==
  (IF o.comb = w.comb THEN {} ELSE {"component table"})
  \cup (IF o.all = Concat(w.comb, Len(w.comb)) THEN {} ELSE {"combined table"})
  \cup (IF o.props = w.props THEN {} ELSE {"property table"})
  \cup (IF o.cog = w.cog /\ o.moi = w.moi /\ o.vm = w.vm THEN {} ELSE {"scalar tables"})
(* writing a study into a directory *)
Written(e) == IF ready /\ e.err = "" THEN [disk EXCEPT ![e.dir] = e.held] ELSE disk
DirBad(o, w) ==
  IF w = <<>> THEN IF o.st = "none" THEN {} ELSE {"written unasked"}
  ELSE IF o.st # "ok" THEN {"table missing"}
  ELSE Holds(o.v, w[1])
Bad(e) ==
  CASE e.op = "lost" -> {"lost"}
    [] e.op = "dvdp" -> {}
    [] e.op = "csv" ->
       (IF (e.err = "") = ready THEN {} ELSE IF ready THEN {"failed"} ELSE {"written without results"})
       \cup (IF e.held = e.after THEN {} ELSE {"results changed by writing"})
       \cup (IF e.ret THEN {} ELSE {"path returned"})
       \cup UNION {DirBad(e.disk[d], Written(e)[d]) : d \in 1..3}
Init == h \in 1..NH /\ i = 1 /\ ready = FALSE /\ disk = <<<<>>, <<>>, <<>>>>
Next == /\ i <= Len(Hist[h].ev)
        /\ LET e == Hist[h].ev[i] IN
           /\ Report(h, i, Bad(e))
           /\ ready' = (ready \/ e.op = "dvdp")
           /\ disk' = IF e.op = "csv" THEN Written(e) ELSE disk
        /\ i' = i + 1
        /\ h' = h
=============================================================================
