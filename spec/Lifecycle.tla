----------------------------- MODULE Lifecycle -----------------------------
(* The life of a vehicle: components are created, given options, added,      *)
(* copied, generated, transformed, meshed, analysed and exported in any      *)
(* order.  Geometry is symbolic: a list of parts [b, ch], the patches of the *)
(* base shape b put through the chain of operations ch.  The state s is one  *)
(* record; every operation of the interface is a function Do...(s, ...)      *)
(* from state to state, used both for model checking and for validating      *)
(* behaviours recorded from the implementation.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Supported == {"fin", "wing", "swept", "revolved", "composite"}
SupportedKids == {"fin", "wing", "swept", "revolved", "sphere", "cube"}

Max(a, b) == IF a < b THEN b ELSE a
Opt(x) == IF x = <<>> THEN FALSE ELSE TRUE

(* a component object; options absent are <<>>, present are <<value>> *)
NewObj(id, type, verb, name) ==
  [type |-> type, base |-> id, kids |-> <<>>, mod |-> <<>>, curv |-> <<>>, refl |-> "", app |-> TRUE,
   tr |-> <<>>, name |-> name, ghost |-> FALSE, verb |-> verb, geo |-> <<>>, cache |-> <<>>,
   clu |-> [i |-> "", j |-> ""], broken |-> FALSE]

NewVehicle == [comps |-> <<>>, named |-> <<>>, gen |-> FALSE, ang |-> <<>>, vtr |-> <<>>, verb |-> 1,
               name |-> "vehicle", props |-> <<>>, dens |-> FALSE, results |-> FALSE]

Start == [obj |-> <<>>, v |-> NewVehicle, files |-> <<>>, pfiles |-> {}]

(* ---- geometry of one component ---- *)
Put(geo, op) == [k \in 1..Len(geo) |-> [geo[k] EXCEPT !.ch = Append(@, op)]]
RECURSIVE PutAll(_, _)
PutAll(geo, ops) == IF ops = <<>> THEN geo ELSE PutAll(Put(geo, Head(ops)), Tail(ops))
Mir(geo, ax, app) == IF ax = "" THEN geo
                     ELSE IF app THEN geo \o Put(geo, [o |-> "mir", ax |-> ax]) ELSE Put(geo, [o |-> "mir", ax |-> ax])
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

KidGeo(o) == PutAll(Mir(PutAll(<<[b |-> o.base, ch |-> <<>>]>>, o.curv), o.refl, o.app), o.tr)
Nominal(obj, id) ==
  IF obj[id].type = "composite" THEN Cat([k \in 1..Len(obj[id].kids) |-> KidGeo(obj[obj[id].kids[k]])])
  ELSE <<[b |-> obj[id].base, ch |-> <<>>]>>

(* the promised composition: modifier, curvatures, angle offset, reflection, *)
(* transformations                                                           *)
Composed(obj, id, ang) ==
  LET o == obj[id] IN
  PutAll(Mir(PutAll(PutAll(PutAll(Nominal(obj, id), o.mod), o.curv), ang), o.refl, o.app), o.tr)

SetGeo(obj, id, g) == [obj EXCEPT ![id].geo = g, ![id].cache = <<>>]
Moved(obj, id, ops) == SetGeo(obj, id, PutAll(obj[id].geo, ops))

(* ---- operations; each returns the new state ---- *)
DoNew(s, type, verb, name) == [s EXCEPT !.obj = Append(@, NewObj(Len(s.obj) + 1, type, verb, name))]

ItsVerb(mine, its) == IF mine = 0 THEN 0 ELSE Max(its, mine)
WithOpts(o, op, verb) ==
  [o EXCEPT !.verb = ItsVerb(verb, @),
            !.refl = IF op.refl # "" THEN op.refl ELSE @,
            !.app = IF op.refl # "" THEN op.app ELSE @,
            !.curv = IF Opt(op.curv) THEN op.curv[1] ELSE @,
            !.tr = IF Opt(op.tr) THEN op.tr[1] ELSE @,
            !.mod = IF Opt(op.mod) THEN op.mod ELSE @,
            !.clu = IF Opt(op.clu) THEN op.clu[1] ELSE @]

TypeCount(s, type) == Cardinality({k \in 1..Len(s.v.comps) : s.obj[s.v.comps[k]].type = type})

CanAdd(s, id) == s.obj[id].type \in Supported
DoAdd(s, id, op, name, ghost) ==
  LET o == [WithOpts(s.obj[id], op, s.v.verb) EXCEPT !.ghost = ghost, !.name = IF name # "" THEN name ELSE @]
      n == IF o.name # "" THEN o.name ELSE o.type \o "_" \o ToString(TypeCount(s, o.type) + 1)
  IN IF ~CanAdd(s, id) THEN s
     ELSE [s EXCEPT !.obj = [@ EXCEPT ![id] = o],
                    !.v.comps = Append(@, id), !.v.named = Append(@, [n |-> n, id |-> id])]

CanAddKid(s, c, id) == s.obj[id].type \in SupportedKids
DoAddKid(s, c, id, op) ==
  IF ~CanAddKid(s, c, id) THEN s
  ELSE [s EXCEPT !.obj = [@ EXCEPT ![id] = WithOpts(@, op, s.obj[c].verb), ![c].kids = Append(@, id)]]

(* a deep copy owns copies of its parts; the copy is the last new object *)
DoCopy(s, id) ==
  LET o == s.obj[id]
      n == Len(s.obj)
      kc == [k \in 1..Len(o.kids) |-> s.obj[o.kids[k]]]
  IN [s EXCEPT !.obj = (@ \o kc) \o <<[o EXCEPT !.kids = [k \in 1..Len(o.kids) |-> n + k]]>>]

RECURSIVE GenAll(_, _, _)
GenOne(obj, id, ang) ==
  LET kids == {obj[id].kids[k] : k \in 1..Len(obj[id].kids)}
      o1 == [k \in DOMAIN obj |-> IF k \in kids THEN [obj[k] EXCEPT !.geo = KidGeo(obj[k]), !.cache = <<>>] ELSE obj[k]]
  IN SetGeo(o1, id, Composed(obj, id, ang))
GenAll(obj, ids, ang) == IF ids = <<>> THEN obj ELSE GenAll(GenOne(obj, Head(ids), ang), Tail(ids), ang)
RECURSIVE MoveAll(_, _, _)
MoveAll(obj, ids, ops) == IF ids = <<>> THEN obj ELSE MoveAll(Moved(obj, Head(ids), ops), Tail(ids), ops)

(* a component may be unable to make its patches; generation then stops and  *)
(* the vehicle does not become generated                                     *)
FirstBroken(s) == LET b == {k \in 1..Len(s.v.comps) : s.obj[s.v.comps[k]].broken}
                  IN IF b = {} THEN Len(s.v.comps) + 1 ELSE CHOOSE k \in b : \A j \in b : k <= j
Whole(s) == FirstBroken(s) > Len(s.v.comps)
DoBreak(s, id, on) == [s EXCEPT !.obj[id].broken = on]
(* clustering functions of the two directions, for meshes made from now on *)
DoCluster(s, id, i, j) == [s EXCEPT !.obj[id].clu = [i |-> IF i # "" THEN i ELSE @.i, j |-> IF j # "" THEN j ELSE @.j]]

(* generating again starts from the nominal shapes, nothing accumulates *)
Built(s) == IF Whole(s) THEN [s EXCEPT !.obj = MoveAll(GenAll(s.obj, s.v.comps, s.v.ang), s.v.comps, s.v.vtr), !.v.gen = TRUE]
            ELSE [s EXCEPT !.obj = GenAll(s.obj, SubSeq(s.v.comps, 1, FirstBroken(s) - 1), s.v.ang)]
CanMesh(s, id) == s.obj[id].geo # <<>>
DoMesh(s, id) == IF CanMesh(s, id) THEN [s EXCEPT !.obj[id].cache = IF @ = <<>> THEN s.obj[id].geo ELSE @] ELSE s
RECURSIVE CacheAll(_, _)
CacheAll(s, ks) == IF ks = {} THEN s ELSE LET k == CHOOSE x \in ks : TRUE IN CacheAll(DoMesh(s, s.v.comps[k]), ks \ {k})
MeshAll(s) == CacheAll(s, 1..Len(s.v.comps))
(* analysing on generation needs a mesh of every component *)
CanGenerate(s) == Whole(s) /\ (s.v.dens => LET s1 == Built(s) IN s.v.comps # <<>> /\ \A k \in 1..Len(s.v.comps) : s1.obj[s.v.comps[k]].geo # <<>>)
DoGenerate(s) == LET s1 == Built(s) IN IF s.v.dens /\ CanGenerate(s) THEN [MeshAll(s1) EXCEPT !.v.results = TRUE] ELSE IF s.v.dens THEN MeshAll(s1) ELSE s1

DoAngle(s, op) == [s EXCEPT !.v.ang = op]
DoAddVT(s, ops) == [s EXCEPT !.v.vtr = @ \o ops]
CanTransform(s) == s.v.gen
DoTransform(s, ops) == IF CanTransform(s) THEN [s EXCEPT !.obj = MoveAll(@, s.v.comps, ops)] ELSE s
(* the component's own methods rotate, translate and reflect *)
DoMove(s, id, ops) == [s EXCEPT !.obj = Moved(@, id, ops)]
DoReflect(s, id, ax) ==
  [s EXCEPT !.obj = SetGeo(@, id, Mir(s.obj[id].geo, IF ax # "" THEN ax ELSE s.obj[id].refl, s.obj[id].app))]

(* single stages of the generation, applied again to the patches there are; *)
(* "nominal" makes the patches of the component anew                         *)
Stage1(s, id, how) == CASE how = "modify" -> s.obj[id].mod [] how = "curve" -> s.obj[id].curv [] how = "transform" -> s.obj[id].tr
CanApply(s, id, how) == how = "nominal" => ~s.obj[id].broken
DoApply(s, id, how) ==
  IF ~CanApply(s, id, how) THEN s
  ELSE IF how # "nominal" THEN IF Stage1(s, id, how) = <<>> THEN s ELSE DoMove(s, id, Stage1(s, id, how))
  ELSE LET kids == {s.obj[id].kids[k] : k \in 1..Len(s.obj[id].kids)}
           o1 == [k \in DOMAIN s.obj |-> IF k \in kids THEN [s.obj[k] EXCEPT !.geo = KidGeo(s.obj[k]), !.cache = <<>>] ELSE s.obj[k]]
       IN [s EXCEPT !.obj = SetGeo(o1, id, Nominal(s.obj, id))]

DoConfigure(s, name, verb) == [s EXCEPT !.v.verb = verb, !.v.name = IF name # "" THEN name ELSE @]

(* analysis generates the vehicle when needed *)
Analysed(s) == IF s.v.gen THEN s ELSE DoGenerate(s)
CanAnalyse(s) == (s.v.gen \/ Whole(s)) /\ LET s1 == Analysed(s) IN s.v.comps # <<>> /\ \A k \in 1..Len(s.v.comps) : CanMesh(s1, s.v.comps[k])
DoAnalyse(s) == MeshAll(Analysed(s))
DoDensities(s) == [s EXCEPT !.v.dens = TRUE]
DoProperty(s, n, x) == [s EXCEPT !.v.props = [k \in DOMAIN @ \cup {n} |-> IF k = n THEN x ELSE @[k]]]

(* ---- export ---- *)
(* k-th component of the vehicle *)
NoOfType(s, k) == Cardinality({j \in 1..(k - 1) : s.obj[s.v.comps[j]].type = s.obj[s.v.comps[k]].type})
FileName(s, k, prefix) ==
  LET o == s.obj[s.v.comps[k]]
      tail == o.type \o "-" \o ToString(NoOfType(s, k))
  IN (IF prefix # "" THEN IF o.name # "" THEN prefix \o "-" \o o.name ELSE prefix \o "-" \o tail
      ELSE IF o.name # "" THEN o.name ELSE s.v.name \o "-" \o tail) \o ".stl"
Writes(s) == {k \in 1..Len(s.v.comps) : ~s.obj[s.v.comps[k]].ghost}
FirstStuck(s) == LET st == {k \in Writes(s) : s.obj[s.v.comps[k]].geo = <<>>}
                 IN IF st = {} THEN Len(s.v.comps) + 1 ELSE CHOOSE k \in st : \A j \in st : k <= j
CanExport(s) == FirstStuck(s) > Len(s.v.comps)
Written(s) == {k \in Writes(s) : k < FirstStuck(s)}
Overlay(f, g) == [n \in DOMAIN f \cup DOMAIN g |-> IF n \in DOMAIN g THEN g[n] ELSE f[n]]
(* two components may share a file name only if they share a name: the last wins *)
NewFiles(s, prefix) ==
  LET ks == Written(s)
      names == {FileName(s, k, prefix) : k \in ks}
  IN [n \in names |-> LET k == CHOOSE k \in ks : FileName(s, k, prefix) = n /\ \A j \in ks : FileName(s, j, prefix) = n => j <= k
                      IN [geo |-> s.obj[s.v.comps[k]].geo, base |-> s.obj[s.v.comps[k]].base, clu |-> s.obj[s.v.comps[k]].clu]]
PropFiles(s, prefix) ==
  LET p == IF prefix # "" THEN prefix ELSE s.v.name
      d == p \o "_properties/" \o p
  IN IF ~CanExport(s) THEN {}
     ELSE (IF s.v.results THEN {d \o "_volmass.csv", d \o "_cog.txt", d \o "_moi.txt"} ELSE {})
          \cup (IF s.v.props # <<>> THEN {d \o "_properties.csv"} ELSE {})
DoExport(s, prefix) ==
  [CacheAll(s, Written(s)) EXCEPT !.files = Overlay(@, NewFiles(s, prefix)), !.pfiles = @ \cup PropFiles(s, prefix)]
=============================================================================
