----------------------------- MODULE FaultTrace -----------------------------
(* Recorded requests on vehicles with failing patches against Meshing (P03). *)
(* A mesh is recorded as runs <<patch, level, triangles>> in its own order;  *)
(* files as the list of runs read back, or <<>> when there is none.          *)
EXTENDS Meshing, TraceLib
VARIABLES h, i, s
Tris(c) == 4 * c.res * c.res
Runs(c, lvl) == [k \in 1..Patches(c) |-> <<k, lvl, Tris(c)>>]
FileOf(c) == IF c.file = <<>> THEN <<>> ELSE Runs(c, c.file[1])
SetOf(q) == {q[k] : k \in 1..Len(q)}
K == 1..Len(s)
Boot(hh) == [k \in 1..Len(hh.head.comps) |-> LET c == hh.head.comps[k] IN NewComp(c.base, c.rf, c.res)]

(* one component asked for its mesh: may be refused only if a patch fails,   *)
(* must be refused if one does and no mesh was completed before              *)
AskBad(c, e, shown) ==
  (IF e.err # "" THEN IF MayFail(c) THEN {} ELSE {"failed without a failing patch"}
   ELSE IF MustFail(c) THEN {"failure not reported"}
   ELSE IF shown /\ e.runs # Runs(c, c.lvl) THEN {"incomplete mesh"} ELSE {})
AskNext(c, e) == IF e.err = "" THEN Completed(c) ELSE c

(* export: each file is as it was or holds the whole current mesh, and only  *)
(* the latter when all went well                                             *)
FileBad(c, o, ok) ==
  IF o = Runs(c, c.lvl) /\ ~MustFail(c) THEN {}
  ELSE IF ok THEN {"file content"}
  ELSE IF o = FileOf(c) THEN {} ELSE {"file content"}
ExportBad(e) ==
  (IF e.err # "" THEN IF \E k \in K : MayFail(s[k]) THEN {} ELSE {"failed without a failing patch"}
   ELSE IF \E k \in K : MustFail(s[k]) THEN {"failure not reported"} ELSE {})
  \cup UNION {FileBad(s[k], e.files[k], e.err = "") : k \in K}
ExportNext(e) ==
  [k \in K |-> IF e.err = "" \/ (e.files[k] = Runs(s[k], s[k].lvl) /\ ~MustFail(s[k]) /\ e.files[k] # FileOf(s[k])) THEN Written(s[k]) ELSE Touched(s[k])]
SameFiles(e) == IF \A k \in K : e.files[k] = FileOf(s[k]) THEN {} ELSE {"file content"}
RECURSIVE Area(_)
Area(k) == IF k = 0 THEN 0 ELSE Area(k - 1) + Patches(s[k]) * 1414214
AnalyseBad(e) ==
  IF e.err # "" THEN IF \E k \in K : MayFail(s[k]) THEN {} ELSE {"failed without a failing patch"}
  ELSE IF \E k \in K : MustFail(s[k]) THEN {"failure not reported"}
  ELSE IF e.area >= Area(Len(s)) - 100 /\ e.area <= Area(Len(s)) + 100 THEN {} ELSE {"incomplete mesh"}

After(e) ==
  CASE e.op = "arm" -> [s EXCEPT ![e.k] = Armed(@, SetOf(e.f))]
    [] e.op \in {"mesh", "surface", "analyse", "check"} -> [s EXCEPT ![e.k] = AskNext(@, e)]
    [] e.op = "export" -> ExportNext(e)
    [] e.op = "vanalyse" -> IF e.err = "" THEN [k \in K |-> Completed(s[k])] ELSE [k \in K |-> Touched(s[k])]
    [] e.op = "move" -> [k \in K |-> Moved(s[k])]
    [] e.op = "gen" -> [k \in K |-> Fresh(s[k])]
    [] OTHER -> s
Bad(e) ==
  CASE e.op = "lost" -> {"lost"}
    [] e.op \in {"mesh", "surface"} -> AskBad(s[e.k], e, TRUE) \cup SameFiles(e)
    [] e.op \in {"analyse", "check"} -> AskBad(s[e.k], e, FALSE) \cup SameFiles(e)
    [] e.op = "export" -> ExportBad(e)
    [] e.op = "vanalyse" -> AnalyseBad(e) \cup SameFiles(e)
    [] e.op = "arm" -> SameFiles(e)
    [] e.op \in {"move", "gen"} -> (IF e.err = "" THEN {} ELSE {"failed without a failing patch"}) \cup SameFiles(e)

Init == h \in 1..NH /\ i = 1 /\ s = Boot(Hist[h])
Next == /\ i <= Len(Hist[h].ev)
        /\ Report(h, i, Bad(Hist[h].ev[i]))
        /\ s' = After(Hist[h].ev[i])
        /\ i' = i + 1
        /\ h' = h
=============================================================================
