----------------------------- MODULE LifeTrace -----------------------------
(* Recorded lives of vehicles against Lifecycle (P01 P02 P10 P11 P18 P19).   *)
(* A history carries nom, the nominal patches of every object made by "new"  *)
(* at four corners and one inner point; res, its mesh resolution, and mid,   *)
(* its patches where the lines r, s = 0, 1/4, 1/2, 3/4, 1 cross.             *)
EXTENDS Lifecycle, Ops, TraceLib

VARIABLES h, i, s

Tol == 200   \* millionths

(* ---- the state after an event ---- *)
TypeOf(k) == IF k = "swept2" THEN "swept" ELSE IF k = "revolved2" THEN "revolved" ELSE k
After(st, e) ==
  CASE e.op = "new" -> DoNew(st, TypeOf(e.kind), e.verb, e.name)
    [] e.op = "add" -> DoAdd(st, e.id, e.o, e.name, e.ghost)
    [] e.op = "kid" -> DoAddKid(st, e.c, e.id, e.o)
    [] e.op = "copy" -> DoCopy(st, e.id)
    [] e.op = "gen" -> DoGenerate(st)
    [] e.op = "angle" -> DoAngle(st, e.a)
    [] e.op = "addvt" -> DoAddVT(st, e.t)
    [] e.op = "vt" -> DoTransform(st, e.t)
    [] e.op = "move" -> DoMove(st, e.id, e.t)
    [] e.op = "reflect" -> DoReflect(st, e.id, e.ax)
    [] e.op = "apply" -> DoApply(st, e.id, e.how)
    [] e.op = "mesh" -> DoMesh(st, e.id)
    [] e.op = "configure" -> DoConfigure(st, e.name, e.verb)
    [] e.op = "export" -> DoExport(st, e.prefix)
    [] e.op = "analyse" -> DoAnalyse(st)
    [] e.op = "dens" -> DoDensities(st)
    [] e.op = "prop" -> DoProperty(st, e.n, e.x)
    [] e.op = "break" -> DoBreak(st, e.id, e.on)
    [] e.op = "cluster" -> DoCluster(st, e.id, e.i, e.j)
    [] OTHER -> st

(* ---- whether the operation must be refused ---- *)
Refused(st, e) ==
  CASE e.op = "add" -> ~CanAdd(st, e.id)
    [] e.op = "kid" -> ~CanAddKid(st, e.c, e.id)
    [] e.op = "gen" -> ~CanGenerate(st)
    [] e.op = "vt" -> ~CanTransform(st)
    [] e.op = "mesh" -> ~CanMesh(st, e.id)
    [] e.op = "apply" -> ~CanApply(st, e.id, e.how)
    [] e.op = "export" -> ~CanExport(st)
    [] e.op = "analyse" -> ~CanAnalyse(st)
    [] OTHER -> FALSE
(* the textual description of a vehicle does not change by a refused addition *)
SaysBad(e) == IF e.op = "add" /\ e.rej /\ ~e.same THEN {"refused addition left a trace"} ELSE {}
RefBad(st, e) == IF e.rej = Refused(st, e) THEN {} ELSE {IF e.rej THEN e.op \o " failed" ELSE e.op \o " not refused"}

(* ---- geometry ---- *)
PartPatches(nom, part) == [k \in 1..Len(nom[part.b]) |-> [j \in 1..5 |-> ChainPt(part.ch, nom[part.b][k][j])]]
RECURSIVE Expand(_, _)
Expand(nom, geo) == IF geo = <<>> THEN <<>> ELSE PartPatches(nom, Head(geo)) \o Expand(nom, Tail(geo))

Unknown(x) == \E k \in 1..Len(x) : \E j \in 1..Len(x[k]) : Gone(x[k][j])
NearPat(a, o) == \A j \in 1..5 : CloseP(a[j], o[j], Tol)
(* equal as collections of patches; in the same order is the usual case *)
SamePats(x, o) ==
  /\ Len(x) = Len(o)
  /\ \/ \A k \in 1..Len(x) : NearPat(x[k], o[k])
     \/ \A k \in 1..Len(x) :
          Cardinality({j \in 1..Len(o) : NearPat(x[k], o[j])}) = Cardinality({j \in 1..Len(x) : NearPat(x[k], x[j])})
PatBad(hh, st, e) ==
  IF "pat" \notin DOMAIN e THEN {}
  ELSE IF Len(e.pat) # Len(st.obj) THEN {"objects"}
  ELSE UNION {LET x == Expand(hh.nom, st.obj[k].geo) IN
              IF Unknown(x) THEN {"?"} ELSE IF SamePats(x, e.pat[k]) THEN {} ELSE {"patches"} : k \in 1..Len(st.obj)}

(* ---- meshes: n by n cells of four triangles each for every patch ---- *)
(* a quadratic clustering function moves the middle line to 1/4 or 3/4 *)
HalfWay(f) == IF f = "sq" THEN 2 ELSE IF f = "up" THEN 4 ELSE 3
Line(f, n, k) == IF k = 0 THEN 1 ELSE IF k = n THEN 5 ELSE HalfWay(f)
(* vertices of the patch grid, by rows r then s, of one patch of a part *)
Nodes(mid, part, k, clu, n) ==
  [a \in 0..n |-> [b \in 0..n |-> ChainPt(part.ch, mid[part.b][k][(Line(clu.i, n, a) - 1) * 5 + Line(clu.j, n, b)])]]
RECURSIVE AllNodes(_, _, _, _)
AllNodes(mid, geo, clu, n) ==
  IF geo = <<>> THEN <<>>
  ELSE [k \in 1..Len(mid[Head(geo).b]) |-> Nodes(mid, Head(geo), k, clu, n)] \o AllNodes(mid, Tail(geo), clu, n)
NoNodes(x) == \E k \in 1..Len(x) : \E a \in DOMAIN x[k] : \E b \in DOMAIN x[k][a] : Gone(x[k][a][b])
Mid(p) == LET c(a) == (p[1][a] + p[2][a] + p[3][a] + p[4][a]) \div 4 IN <<c(1), c(2), c(3)>>
Within(t, a, b, c) ==   \* the vertices of t are a, b, c
  \E w \in {<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<1, 3, 2>>, <<3, 2, 1>>, <<2, 1, 3>>} :
    CloseP(a, t[w[1]], Tol) /\ CloseP(b, t[w[2]], Tol) /\ CloseP(c, t[w[3]], Tol)
Group(ts, k, n) == SubSeq(ts, (k - 1) * 4 * n * n + 1, k * 4 * n * n)
Cell(p, a, b) == <<p[a][b], p[a + 1][b], p[a + 1][b + 1], p[a][b + 1]>>
CellIn(g, c) == LET m == Mid(c) IN \A j \in 1..4 : \E t \in 1..Len(g) : Within(g[t], c[j], c[(j % 4) + 1], m)
GroupIs(g, p, n) == \A a, b \in 0..(n - 1) : CellIn(g, Cell(p, a, b))
MeshIs(x, ts, n) ==
  /\ Len(ts) = 4 * n * n * Len(x)
  /\ \/ \A k \in 1..Len(x) : GroupIs(Group(ts, k, n), x[k], n)
     \/ \A k \in 1..Len(x) : \E j \in 1..Len(x) : GroupIs(Group(ts, j, n), x[k], n)
MeshBad(hh, st, e) ==
  IF e.op # "mesh" \/ e.rej THEN {}
  ELSE LET n == hh.res[st.obj[e.id].base]
           x == TLCEval(AllNodes(hh.mid, st.obj[e.id].geo, st.obj[e.id].clu, n)) IN
       IF NoNodes(x) THEN {"?"} ELSE IF MeshIs(x, e.tri, n) THEN {} ELSE {"mesh"}

(* ---- registry ---- *)
RegBad(st, e) ==
  IF "reg" \notin DOMAIN e THEN {}
  ELSE LET real == {<<st.v.named[k].n, st.v.named[k].id>> : k \in {k \in 1..Len(st.v.named) : ~st.obj[st.v.named[k].id].ghost}}
           seen == {<<e.reg.real[k][1], e.reg.real[k][2]>> : k \in 1..Len(e.reg.real)}
       IN (IF e.reg.comps = st.v.comps THEN {} ELSE {"components"})
          \cup (IF seen = real /\ Len(e.reg.real) = Cardinality(real) THEN {} ELSE {"non-ghost names"})
          \cup (IF Len(e.reg.verb) = Len(st.obj) /\ \A k \in 1..Len(st.obj) : e.reg.verb[k] = st.obj[k].verb THEN {} ELSE {"verbosity"})
          \cup (IF Len(e.reg.kids) = Len(st.obj) /\ \A k \in 1..Len(st.obj) : e.reg.kids[k] = st.obj[k].kids THEN {} ELSE {"children"})
KeysBad(st, e) ==
  IF e.op # "analyse" \/ e.rej THEN {}
  ELSE IF {e.keys[k] : k \in 1..Len(e.keys)} = {st.v.named[k].n : k \in 1..Len(st.v.named)} THEN {} ELSE {"analysed names"}

(* ---- files ---- *)
FilesBad(hh, st, e) ==
  IF "stl" \notin DOMAIN e THEN {}
  ELSE LET seen == {e.stl[k].f : k \in 1..Len(e.stl)}
           oth == {e.oth[k] : k \in 1..Len(e.oth)}
           one(k) == LET f == st.files[e.stl[k].f]
                         n == hh.res[f.base]
                         x == TLCEval(AllNodes(hh.mid, f.geo, f.clu, n))
                     IN IF NoNodes(x) THEN {"?"} ELSE IF MeshIs(x, e.stl[k].t, n) THEN {} ELSE {"file content"}
       IN (IF seen = DOMAIN st.files THEN {} ELSE {"files"})
          \cup (IF oth = st.pfiles THEN {} ELSE {"property files"})
          \cup UNION {one(k) : k \in {k \in 1..Len(e.stl) : e.stl[k].f \in DOMAIN st.files}}
Merged(st, e) == \* the files written by this export
  {FileName(st, k, e.prefix) : k \in Written(st)}
ExportBad(st, e) ==
  IF e.op # "export" \/ e.rej THEN {}
  ELSE (IF st.v.props = <<>> THEN {}
        ELSE IF Len(e.pv) = Cardinality(DOMAIN st.v.props)
                /\ \A k \in 1..Len(e.pv) : e.pv[k][1] \in DOMAIN st.v.props /\ e.pv[k][2] = st.v.props[e.pv[k][1]] * 125000
             THEN {} ELSE {"property values"})
       \cup (IF \A k \in 1..Len(e.pairs) : e.pairs[k][1] = e.pairs[k][2] THEN {} ELSE {"result values"})
       \cup (IF ~e.merge THEN IF e.merged = <<>> THEN {} ELSE {"merged"}
             ELSE IF /\ Len(e.merged) = 1
                     /\ e.merged[1].f = (IF e.prefix # "" THEN e.prefix ELSE st.v.name) \o ".stl"
                     /\ {e.merged[1].from[k] : k \in 1..Len(e.merged[1].from)} = Merged(st, e)
                     /\ Len(e.merged[1].from) = Cardinality(Written(st))
                  THEN {} ELSE {"merged"})

Bad(hh, st, st2, e) ==
  IF e.op = "lost" THEN {"lost"}
  ELSE RefBad(st, e) \cup SaysBad(e) \cup RegBad(st2, e) \cup KeysBad(st2, e) \cup PatBad(hh, st2, e) \cup MeshBad(hh, st2, e)
       \cup FilesBad(hh, st2, e) \cup ExportBad(st, e)

Init == h \in 1..NH /\ i = 1 /\ s = Start
Next == /\ i <= Len(Hist[h].ev)
        /\ LET e == Hist[h].ev[i]
               s2 == After(s, e)
           IN Report(h, i, Bad(Hist[h], s, s2, e)) /\ s' = s2
        /\ i' = i + 1
        /\ h' = h
=============================================================================
