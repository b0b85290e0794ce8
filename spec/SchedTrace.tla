----------------------------- MODULE SchedTrace -----------------------------
(* Meshes built under recorded schedules against Meshing (P04): the build    *)
(* with the requested schedule assembles all patches in their order.         *)
EXTENDS Meshing, TraceLib
VARIABLES h, i
(* sides of sweep by edge cells, ends of first by second edge cells *)
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q) + Total(Tail(q))
Cells(e) == (IF e.mir THEN 2 ELSE 1) * 4 * (e.sw * Total(e.re) + IF e.close THEN 2 * e.re[1] * e.re[2] ELSE 0)
Bad(e) ==
  CASE e.op = "lost" -> {"lost"}
    [] e.op = "edges" ->
       IF e.err # "" THEN {"failed"}
       ELSE (IF e.na = Cells(e) THEN {} ELSE {"number of triangles"}) \cup (IF e.nb = Cells(e) THEN {} ELSE {"number of triangles of a sequential build"})
            \cup (IF e.same THEN {} ELSE {"triangles differ from those of a sequential build"})
            \cup (IF e.ra = [k \in 1..e.n |-> k] THEN {} ELSE {"order of the patches in the mesh"})
            \cup (IF e.rb = [k \in 1..e.n |-> k] THEN {} ELSE {"order of the patches in the mesh of a sequential build"})
    [] OTHER ->
       LET b == [NewBuild(e.n, e.w) EXCEPT !.done = e.order, !.next = e.n + 1]
           want == [k \in 1..e.n |-> <<Assembled(b)[k], 0, 4 * e.res * e.res>>]
       IN IF e.err # "" THEN {"failed"}
          ELSE (IF e.runs = want THEN {} ELSE {"patches of the mesh"})
          \cup (IF e.again = want THEN {} ELSE {"patches of the mesh built again"})
          \cup (IF e.same THEN {} ELSE {"triangles differ from those of a sequential build"})
Init == h \in 1..NH /\ i = 1
Next == /\ i <= Len(Hist[h].ev)
        /\ Report(h, i, Bad(Hist[h].ev[i]))
        /\ i' = i + 1
        /\ h' = h
=============================================================================
