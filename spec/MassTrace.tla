----------------------------- MODULE MassTrace -----------------------------
(* Recorded analyses of vehicles against Mass (P09).  Observations are in    *)
(* millionths of the length unit, which is four lattice units.               *)
EXTENDS Mass, TraceLib
VARIABLES h, i, s
(* volume, mass, area, cog (3), moi (9) as one list, with the power of four *)
Scales == <<64, 64, 16, 4, 4, 4, 1024, 1024, 1024, 1024, 1024, 1024, 1024, 1024, 1024>>
List(p) == <<p.vol, p.mass, p.area>> \o p.cog \o p.moi
Ok(o, q, sc, tol) ==
  LET w == QDiv(q, QI(sc)) IN
  IF w[2] = 0 THEN TRUE ELSE LET m == Micro(w) IN m = NaNObs \/ NearI(o, m, tol)
Unk(p) == \E k \in 1..15 : List(p)[k][2] = 0
(* single precision meshes: relative to the largest moment *)
TolAt(k) == IF k <= 6 THEN 40 ELSE 300
Names == <<"volume", "mass", "area", "cog", "cog", "cog", "inertia", "inertia", "inertia", "inertia", "inertia", "inertia", "inertia", "inertia", "inertia">>
Cmp(o, p, ks) == (IF Unk(p) THEN {"?"} ELSE {}) \cup {Names[k] : k \in {k \in ks : ~Ok(o[k], List(p)[k], Scales[k], TolAt(k))}}
All == 1..15
AnaBad(e) ==
  IF e.err # "" THEN {"failed"}
  ELSE LET t == Analyse(s, e.d)
           p == VProps(t.cur, e.d)
       IN Cmp(e.ret, p, All \ {3}) \cup Cmp(e.att, p, All)
          \cup UNION {Cmp(e.parts[k], CProps(t.cur[k], e.d[k]), All) : k \in 1..Len(t.cur)}
ResBad(e) ==
  IF s.res = <<>> THEN IF e.has THEN {"results without analysis"} ELSE {}
  ELSE IF ~e.has THEN {"results missing"}
  ELSE Cmp(e.ret, VProps(s.res[1], s.res[2]), All \ {3})
ExpBad(e) ==
  IF e.err # "" THEN {"failed"}
  ELSE IF s.res = <<>> THEN IF e.has THEN {"results without analysis"} ELSE {}
  ELSE IF ~e.has THEN {"results missing"}
  ELSE Cmp(e.ret, VProps(s.res[1], s.res[2]), (All \ {1, 2, 3}) \cup (IF s.last = s.res THEN {1, 2, 3} ELSE {}))
After(e) ==
  CASE e.op = "add" -> AddC(s, e.c, e.ops)
    [] e.op = "vt" -> AddVT(s, e.ops)
    [] e.op = "after" -> AnalyseAfter(s, e.d)
    [] e.op = "generate" -> Generate(s)
    [] e.op = "transform" -> Transform(s, e.ops)
    [] e.op = "analyse" -> Analyse(s, e.d)
    [] OTHER -> s
Bad(e) ==
  CASE e.op = "analyse" -> AnaBad(e)
    [] e.op = "results" -> ResBad(e)
    [] e.op = "export" -> ExpBad(e)
    [] e.op = "lost" -> {"lost"}
    [] OTHER -> IF e.err = "" THEN {} ELSE {"failed"}
Init == h \in 1..NH /\ i = 1 /\ s = NewV
Next == /\ i <= Len(Hist[h].ev)
        /\ Report(h, i, Bad(Hist[h].ev[i]))
        /\ s' = After(Hist[h].ev[i])
        /\ i' = i + 1
        /\ h' = h
=============================================================================
