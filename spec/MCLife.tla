------------------------------- MODULE MCLife -------------------------------
(* Exhaustive exploration of short lives of a vehicle with a composite, a    *)
(* leaf and a copy.  Generation is modelled step by step as the              *)
(* implementation performs it (component by component, stage by stage), and  *)
(* compared with the declarative composition of Lifecycle.                   *)
EXTENDS Lifecycle
CONSTANTS MaxSteps, MaxObj

VARIABLES s, n, pc, last

(* operations carry the stage that introduced them *)
Op(st, k) == [o |-> st, k |-> k]
None == [refl |-> "", app |-> TRUE, curv |-> <<>>, tr |-> <<>>, mod |-> <<>>, clu |-> <<>>]
OptSets == { None,
             [None EXCEPT !.refl = "y"], [None EXCEPT !.refl = "x", !.app = FALSE],
             [None EXCEPT !.curv = << <<Op("curv", 1), Op("curv", 2)>> >>, !.mod = <<Op("mod", 1)>>],
             [None EXCEPT !.tr = << <<Op("tr", 1), Op("tr", 2)>> >>, !.refl = "z"] }

Leaf == DoNew(Start, "swept", 1, "")
Comp == DoNew(DoNew(Leaf, "composite", 1, ""), "cube", 1, "")
Init == /\ s = Comp            \* objects 1 swept, 2 composite, 3 cube
        /\ n = 0 /\ pc = <<>> /\ last = "new"

InV(id) == \E k \in 1..Len(s.v.comps) : s.v.comps[k] = id
IsKid(id) == \E c \in 1..Len(s.obj) : \E k \in 1..Len(s.obj[c].kids) : s.obj[c].kids[k] = id
Ids == 1..Len(s.obj)
Idle == pc = <<>>
Step(name, s2) == s' = s2 /\ n' = n + 1 /\ pc' = pc /\ last' = name

Add == \E id \in Ids, o \in OptSets, g \in BOOLEAN :
         ~InV(id) /\ ~IsKid(id) /\ Step("add", DoAdd(s, id, o, "", g))
Kid == \E o \in {None, [None EXCEPT !.refl = "y", !.tr = << <<Op("tr", 3)>> >>]} :
         ~IsKid(3) /\ Step("kid", DoAddKid(s, 2, 3, o))
Copy == \E id \in Ids : Len(s.obj) + 1 + Len(s.obj[id].kids) <= MaxObj /\ ~IsKid(id) /\ Step("copy", DoCopy(s, id))
Angle == s.v.ang = <<>> /\ Step("angle", DoAngle(s, <<Op("ang", 1)>>))
AddVT == Len(s.v.vtr) < 1 /\ Step("addvt", DoAddVT(s, <<Op("vtr", 1)>>))
VT == Step("vt", DoTransform(s, <<Op("user", 1)>>))
Move == \E id \in Ids : s.obj[id].geo # <<>> /\ Len(s.obj[id].geo[1].ch) < 9 /\ Step("move", DoMove(s, id, <<Op("user", 2)>>))
Again == \E id \in Ids : Step("apply", DoApply(s, id, "nominal"))
Mesh == \E id \in Ids : Step("mesh", DoMesh(s, id))
Export == Step("export", DoExport(s, ""))
Break == \E id \in {1} : Step("break", DoBreak(s, id, ~s.obj[id].broken))

(* generation in steps: pc = <<component number, stage, geometry before it>> *)
GenStart == /\ s.v.comps # <<>> /\ n' = n + 1 /\ last' = "gen"
            /\ pc' = <<1, 1>> /\ UNCHANGED s
Stage(o, st) ==
  CASE st = 1 -> Nominal(s.obj, s.v.comps[pc[1]])
    [] st = 2 -> PutAll(o.geo, o.mod)
    [] st = 3 -> PutAll(o.geo, o.curv)
    [] st = 4 -> PutAll(o.geo, s.v.ang)
    [] st = 5 -> Mir(o.geo, o.refl, o.app)
    [] st = 6 -> PutAll(o.geo, o.tr)
GenStep ==
  /\ pc # <<>> /\ n' = n /\ last' = "gen"
  /\ IF pc[1] > Len(s.v.comps)
     THEN pc' = <<>> /\ s' = [s EXCEPT !.obj = MoveAll(s.obj, s.v.comps, s.v.vtr), !.v.gen = TRUE]
     ELSE IF s.obj[s.v.comps[pc[1]]].broken THEN pc' = <<>> /\ UNCHANGED s
     ELSE LET id == s.v.comps[pc[1]]
              o == s.obj[id]
              kids == {o.kids[k] : k \in 1..Len(o.kids)}
              ob == IF pc[2] # 1 THEN s.obj
                    ELSE [k \in DOMAIN s.obj |-> IF k \in kids THEN [s.obj[k] EXCEPT !.geo = KidGeo(s.obj[k]), !.cache = <<>>] ELSE s.obj[k]]
          IN /\ s' = [s EXCEPT !.obj = SetGeo(ob, id, Stage(o, pc[2]))]
             /\ pc' = IF pc[2] = 6 THEN <<pc[1] + 1, 1>> ELSE <<pc[1], pc[2] + 1>>

Next == \/ GenStep
        \/ Idle /\ n < MaxSteps /\ (Add \/ Kid \/ Copy \/ Angle \/ AddVT \/ VT \/ Move \/ Again \/ Mesh \/ Export \/ Break \/ GenStart)
vars == <<s, n, pc, last>>
Spec == Init /\ [][Next]_vars

(* P02: a cached mesh is always the mesh of the current geometry *)
CacheFresh == \A id \in Ids : s.obj[id].cache = <<>> \/ s.obj[id].cache = s.obj[id].geo
(* P02: generating again changes nothing that generating once did not *)
Idempotent == Idle => DoGenerate(DoGenerate(s)).obj = DoGenerate(s).obj
(* P01: stepwise generation ends in the declared composition *)
GenRight == (Idle /\ last = "gen" /\ s.v.gen /\ Whole(s)) =>
  /\ s.obj = DoGenerate(s).obj
  /\ \A k \in 1..Len(s.v.comps) : LET id == s.v.comps[k] IN
       s.obj[id].geo = PutAll(Composed(s.obj, id, s.v.ang), s.v.vtr)
(* P01: in the chain of a leaf every operation stands after the earlier stages *)
Rank(o) == CASE o = "mod" -> 1 [] o = "curv" -> 2 [] o = "ang" -> 3 [] o = "mir" -> 4 [] o = "tr" -> 5 [] o = "vtr" -> 6 [] o = "user" -> 7
Ordered == \A id \in Ids : s.obj[id].type # "composite" => \A p \in 1..Len(s.obj[id].geo) :
  LET ch == s.obj[id].geo[p].ch IN \A a \in 1..Len(ch), b \in 1..Len(ch) : a < b => Rank(ch[a].o) <= Rank(ch[b].o)
(* P02: a vehicle is generated only after all its components were *)
Truthful == (s.v.gen /\ last = "gen" /\ Idle /\ Whole(s)) => \A k \in 1..Len(s.v.comps) :
  LET o == s.obj[s.v.comps[k]] IN o.geo # <<>> \/ (o.type = "composite" /\ o.kids = <<>>)
FailSafe == [][(last' = "gen" /\ pc' = <<>> /\ ~Whole(s)) => s'.v.gen = s.v.gen]_vars
(* P10: the registry lists exactly the supported components, once, in order *)
Registry == /\ Len(s.v.comps) = Len(s.v.named)
            /\ \A k \in 1..Len(s.v.comps) : s.v.named[k].id = s.v.comps[k] /\ s.obj[s.v.comps[k]].type \in Supported
            /\ \A j, k \in 1..Len(s.v.named) : j # k => s.v.named[j].n # s.v.named[k].n /\ s.v.comps[j] # s.v.comps[k]
(* P11: files hold geometry, distinct components distinct files *)
FilesRight == /\ \A f \in DOMAIN s.files : s.files[f].geo # <<>>
              /\ \A j, k \in Writes(s) : j # k => FileName(s, j, "p") # FileName(s, k, "p")
(* P19: no two composites share a part, a copy is never part of the original *)
Separate == \A c, d \in Ids : c # d => {s.obj[c].kids[k] : k \in 1..Len(s.obj[c].kids)} \cap {s.obj[d].kids[k] : k \in 1..Len(s.obj[d].kids)} = {}
(* P18: a composite has as many parts as its children have in total *)
CompositeWhole == \A c \in Ids : (s.obj[c].type = "composite" /\ Idle) =>
  Len(Nominal(s.obj, c)) = Cardinality({<<k, m>> \in (1..2) \X (1..2) : k <= Len(s.obj[c].kids) /\
     m <= (IF s.obj[s.obj[c].kids[k]].refl # "" /\ s.obj[s.obj[c].kids[k]].app THEN 2 ELSE 1)})
(* P01, P19: an operation on one object leaves the geometry of all others alone *)
Frame == [][\A id \in Ids :
             (last' \in {"add", "kid", "copy", "angle", "addvt", "mesh", "export", "break"} => s'.obj[id].geo = s.obj[id].geo)
             /\ (last' = "move" => Cardinality({k \in Ids : s'.obj[k].geo # s.obj[k].geo}) <= 1)
             /\ (last' = "apply" => \E c \in Ids : \A k \in Ids : s'.obj[k].geo # s.obj[k].geo => k = c \/ \E j \in 1..Len(s.obj[c].kids) : s.obj[c].kids[j] = k)
             /\ (last' = "vt" => (s'.obj[id].geo # s.obj[id].geo => InV(id) /\ s.v.gen))]_vars
=============================================================================
