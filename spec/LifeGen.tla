------------------------------ MODULE LifeGen ------------------------------
(* Random lives of a vehicle, chosen by TLC in simulation mode; the history  *)
(* of operations is printed when it is complete.  Mode selects the emphasis. *)
EXTENDS Lifecycle, Json
CONSTANTS Mode, MaxLen

VARIABLES s, hist, bang

\* depends on the state so that TLC does not evaluate it only once
R(S) == RandomElement(IF bang THEN S ELSE S)
Chance(k) == R(1..100) <= k
Row(z) == R({<<0, 0, 0>>, <<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<0, -1, 0>>, <<-1, 0, 1>>})
Lin(d) == [o |-> "off", m |-> << Row(0) \o <<R(-3..3)>>, Row(0) \o <<R(-3..3)>>, Row(0) \o <<R(-3..3)>> >>, d |-> d]
Zr == <<0, 0, 0>>
Vec(z) == [o |-> "off", m |-> << Zr \o <<R(-4..4)>>, Zr \o <<R(-4..4)>>, Zr \o <<R(-4..4)>> >>, d |-> R({1, 2})]
Ang(z) == R({<<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<4, 3, 5>>, <<4, -3, 5>>, <<12, 5, 13>>})
Rot(z) == [o |-> "rot", ax |-> R({"x", "y", "z"}), cs |-> Ang(0)]
Slope(z) == R({<<3, 4, 5>>, <<-3, 4, 5>>, <<5, 12, 13>>, <<0, 1, 1>>, <<4, 3, 5>>})
Curv(z) == [o |-> "curv", dir |-> R({"x", "y"}), row |-> R({<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<1, -1, 0>>}) \o <<R(-3..3)>>,
         d |-> R({2, 4}), x0 |-> 10309 * R(-300..300) + 5000, sl1 |-> Slope(0), sl2 |-> Slope(0)]
Trans(z) == IF Chance(50) THEN Rot(0) ELSE IF Chance(60) THEN Vec(0) ELSE Lin(4)
Some(z) == IF Chance(50) THEN <<Trans(0)>> ELSE <<Trans(0), Trans(0)>>
Many(z) == IF Chance(15) THEN <<>> ELSE IF Chance(30) THEN <<Trans(0), Trans(0), Trans(0)>> ELSE Some(0)
Curvs(z) == IF Chance(60) THEN <<Curv(0)>> ELSE <<Curv(0), Curv(0)>>

Opts(z) == [refl |-> IF Chance(45) THEN "" ELSE R({"x", "y", "z"}), app |-> R(BOOLEAN),
         curv |-> IF Chance(40) THEN << Curvs(0) >> ELSE <<>>,
         tr |-> IF Chance(50) THEN << Many(0) >> ELSE <<>>,
         mod |-> IF Chance(35) THEN << Lin(4) >> ELSE <<>>,
         clu |-> IF Chance(20) THEN << [i |-> R({"sq", "up"}), j |-> R({"sq", "up"})] >> ELSE <<>>]
KidOpts(z) == [Opts(0) EXCEPT !.mod = <<>>]

Kinds == IF Mode = "composite" THEN {"swept", "revolved", "cube", "sphere", "composite", "fin"}
         ELSE IF Mode = "wings" THEN {"swept", "fin", "wing", "composite"}
         ELSE {"swept", "swept2", "revolved", "cube", "composite", "revolved2"}
TypeOf(k) == IF k = "swept2" THEN "swept" ELSE IF k = "revolved2" THEN "revolved" ELSE k
MaxObj == IF Mode = "wings" THEN 3 ELSE IF Mode = "composite" THEN 9 ELSE 7

Do(op, s2) == s' = s2 /\ hist' = Append(hist, op) /\ bang' = bang
InV(id) == \E k \in 1..Len(s.v.comps) : s.v.comps[k] = id
IsKid(id) == \E c \in 1..Len(s.obj) : \E k \in 1..Len(s.obj[c].kids) : s.obj[c].kids[k] = id
Ids == 1..Len(s.obj)
Tops == {id \in Ids : ~IsKid(id)}
(* distinct names only: the registry is keyed by name *)
Fresh == "part" \o ToString(Len(hist))

(* a random choice is bound by \E over a singleton, which TLC evaluates once *)
Composites == {c \in Tops : s.obj[c].type = "composite"}
(* composites often get several parts of one kind *)
NewKind(z) == IF Mode # "composite" THEN R(Kinds)
              ELSE IF Composites = {} /\ Chance(70) THEN "composite"
              ELSE IF Len(s.obj) > 0 /\ Chance(55) THEN s.obj[R(Ids)].type
              ELSE R(Kinds)
(* fins are slow to mesh *)
Fins == Cardinality({id \in Ids : s.obj[id].type = "fin"})
Affordable(k) == IF Mode = "composite" /\ k = "fin" /\ Fins >= 2 THEN "swept" ELSE k
New == /\ Len(s.obj) < MaxObj
       /\ \E k \in {Affordable(NewKind(0))}, p \in {R(0..3)}, verb \in {R({0, 1, 2, 3})}, nm \in {IF Chance(25) THEN "own" \o ToString(Len(hist)) ELSE ""} :
            Do([op |-> "new", kind |-> k, p |-> p, verb |-> verb, name |-> nm], DoNew(s, TypeOf(k), verb, nm))
Addable == {id \in Tops : ~InV(id)}
Rich == {id \in Addable : Len(s.obj[id].kids) > 1}
Add == \E id \in {IF Mode = "composite" /\ Rich # {} /\ Chance(80) THEN R(Rich) ELSE R(Addable)}, o \in {Opts(0)}, nm \in {IF Chance(40) THEN Fresh ELSE ""}, g \in {Chance(20)} :
         LET oo == IF s.obj[id].cache = <<>> THEN o ELSE [o EXCEPT !.clu = <<>>]   \* meshes made before, by a copy say, keep their clustering
         IN Do([op |-> "add", id |-> id, o |-> oo, name |-> nm, ghost |-> g], DoAdd(s, id, oo, nm, g))
KidPairs == {x \in Tops \X Tops : x[1] # x[2] /\ s.obj[x[1]].type = "composite" /\ (Mode = "composite" \/ ~InV(x[2])) /\ ~s.obj[x[2]].broken}
(* parts that were given options before: members of the vehicle, copies of them *)
Opted == {x \in KidPairs : LET o == s.obj[x[2]] IN o.type # "composite" /\ (o.tr # <<>> \/ o.refl # "" \/ o.curv # <<>>)}
Kid == \E x \in {IF Opted # {} /\ Chance(60) THEN R(Opted) ELSE R(KidPairs)}, o \in {KidOpts(0)} :
         LET oo == IF s.obj[x[2]].cache = <<>> THEN o ELSE [o EXCEPT !.clu = <<>>]
         IN Do([op |-> "kid", c |-> x[1], id |-> x[2], o |-> oo], DoAddKid(s, x[1], x[2], oo))
CopyIds == {id \in Tops : Len(s.obj) + 1 + Len(s.obj[id].kids) <= MaxObj + 1 /\ s.obj[id].name = ""}
Copy == \E id \in {R(CopyIds)} : Do([op |-> "copy", id |-> id], DoCopy(s, id))
Gen == Do([op |-> "gen"], DoGenerate(s))
Angle == \E a \in {<<[o |-> "rot", ax |-> "y", cs |-> Ang(0)]>>} : Do([op |-> "angle", a |-> a], DoAngle(s, a))
AddVT == \E t \in {IF s.v.vtr # <<>> /\ Chance(60) THEN <<Trans(0)>> ELSE Some(0)}, one \in {Chance(50)} : Do([op |-> "addvt", t |-> t, single |-> Len(t) = 1 /\ one], DoAddVT(s, t))
VT == \E t \in {Some(0)}, one \in {Chance(50)} : Do([op |-> "vt", t |-> t, single |-> Len(t) = 1 /\ one], DoTransform(s, t))
Move == \E id \in {R(Ids)}, t \in {<<Trans(0)>>} : Do([op |-> "move", id |-> id, t |-> t], DoMove(s, id, t))
ReflIds == {id \in Ids : Len(s.obj[id].geo) \in 1..3}
Refl == \E id \in {R(ReflIds)}, own \in {Chance(25)}, x \in {R({"x", "y", "z"})} :
          LET ax == IF s.obj[id].refl # "" /\ own THEN "" ELSE x
          IN Do([op |-> "reflect", id |-> id, ax |-> ax], DoReflect(s, id, ax))
(* stages applied by hand; long chains of operations would outgrow the numbers *)
ApplyIds == {id \in Ids : \A k \in 1..Len(s.obj[id].geo) : Len(s.obj[id].geo[k].ch) < 7}
Hows(id) == {"nominal"} \cup (IF s.obj[id].mod # <<>> THEN {"modify"} ELSE {}) \cup (IF s.obj[id].curv # <<>> THEN {"curve"} ELSE {}) \cup (IF s.obj[id].tr # <<>> THEN {"transform"} ELSE {})
Apply == \E id \in {R(ApplyIds)} : \E how \in {IF Chance(20) THEN R({"modify", "curve", "transform"}) ELSE R(Hows(id))} : Do([op |-> "apply", id |-> id, how |-> how], DoApply(s, id, how))
Mesh == \E id \in {R(Ids)} : Do([op |-> "mesh", id |-> id], DoMesh(s, id))
Conf == \E v \in {R({0, 1, 2, 3})}, nm \in {R({"", "plane", "craft"})} : Do([op |-> "configure", name |-> nm, verb |-> v], DoConfigure(s, nm, v))
Export == \E p \in {R({"", "out", "pre"})}, m \in {Chance(25)} : Do([op |-> "export", prefix |-> p, merge |-> m], DoExport(s, p))
Analyse == Do([op |-> "analyse"], DoAnalyse(s))
Dens == Do([op |-> "dens"], DoDensities(s))
(* meshes already made keep their clustering: it is changed only while there is none *)
Unmeshed == {id \in Ids : s.obj[id].cache = <<>>}
Clust == \E id \in {R(Unmeshed)}, i \in {R({"", "sq", "up"})}, j \in {R({"", "sq", "up"})} : Do([op |-> "cluster", id |-> id, i |-> i, j |-> j], DoCluster(s, id, i, j))
Breakable == {id \in Tops : s.obj[id].type # "composite"}
Break == \E id \in {R(Breakable)} : LET on == ~s.obj[id].broken IN Do([op |-> "break", id |-> id, on |-> on], DoBreak(s, id, on))
Prop == \E n \in {R({"alpha", "beta"})}, x \in {R(-500..500)} : Do([op |-> "prop", n |-> n, x |-> x], DoProperty(s, n, x))

Init == s = Start /\ hist = <<>> /\ bang = FALSE
(* one random choice of action per step keeps the number of successors small *)
Weight ==
  CASE Mode = "export" -> [new |-> 14, add |-> 22, kid |-> 4, copy |-> 3, gen |-> 14, angle |-> 2, addvt |-> 3, vt |-> 6, move |-> 4, refl |-> 2,
                           mesh |-> 4, conf |-> 6, export |-> 14, analyse |-> 3, dens |-> 2, prop |-> 5, clust |-> 3, break |-> 1, apply |-> 2]
    [] Mode = "composite" -> [new |-> 24, add |-> 14, kid |-> 22, copy |-> 5, gen |-> 14, angle |-> 2, addvt |-> 3, vt |-> 5, move |-> 5, refl |-> 3,
                           mesh |-> 8, conf |-> 2, export |-> 1, analyse |-> 0, dens |-> 0, prop |-> 0, clust |-> 3, break |-> 0, apply |-> 4]
    [] Mode = "copy" -> [new |-> 16, add |-> 14, kid |-> 8, copy |-> 18, gen |-> 14, angle |-> 1, addvt |-> 2, vt |-> 6, move |-> 12, refl |-> 6,
                           mesh |-> 10, conf |-> 0, export |-> 1, analyse |-> 0, dens |-> 0, prop |-> 0, clust |-> 10, break |-> 0, apply |-> 5]
    [] Mode = "registry" -> [new |-> 30, add |-> 34, kid |-> 8, copy |-> 6, gen |-> 6, angle |-> 0, addvt |-> 0, vt |-> 2, move |-> 0, refl |-> 0,
                           mesh |-> 0, conf |-> 14, export |-> 2, analyse |-> 8, dens |-> 0, prop |-> 0, clust |-> 0, break |-> 0, apply |-> 0]
    [] Mode = "options" -> [new |-> 22, add |-> 26, kid |-> 6, copy |-> 3, gen |-> 22, angle |-> 8, addvt |-> 14, vt |-> 5, move |-> 0, refl |-> 0,
                           mesh |-> 0, conf |-> 0, export |-> 0, analyse |-> 0, dens |-> 0, prop |-> 0, clust |-> 0, break |-> 2, apply |-> 0]
    [] OTHER -> [new |-> 14, add |-> 18, kid |-> 5, copy |-> 5, gen |-> 16, angle |-> 3, addvt |-> 4, vt |-> 9, move |-> 8, refl |-> 4,
                 mesh |-> 14, conf |-> 1, export |-> 4, analyse |-> 3, dens |-> 0, prop |-> 0, clust |-> 5, break |-> 5, apply |-> 6]
Order == <<"new", "add", "kid", "copy", "gen", "angle", "addvt", "vt", "move", "refl", "mesh", "conf", "export", "analyse", "dens", "prop", "clust", "break", "apply">>
RECURSIVE PickFrom(_, _)
PickFrom(k, x) == IF x <= Weight[Order[k]] THEN Order[k] ELSE PickFrom(k + 1, x - Weight[Order[k]])
RECURSIVE Sum(_)
Sum(k) == IF k = 0 THEN 0 ELSE Weight[Order[k]] + Sum(k - 1)
Act(a) ==
  CASE a = "new" -> New [] a = "add" -> Add [] a = "kid" -> Kid [] a = "copy" -> Copy [] a = "gen" -> Gen
    [] a = "angle" -> Angle [] a = "addvt" -> AddVT [] a = "vt" -> VT [] a = "move" -> Move [] a = "refl" -> Refl
    [] a = "mesh" -> Mesh [] a = "conf" -> Conf [] a = "export" -> Export [] a = "analyse" -> Analyse [] a = "dens" -> Dens [] a = "prop" -> Prop
    [] a = "clust" -> Clust [] a = "break" -> Break [] a = "apply" -> Apply
Enough(a) == \* whether the action can be taken
  CASE a = "new" -> Len(s.obj) < MaxObj
    [] a = "add" -> \E id \in Tops : ~InV(id)
    [] a = "kid" -> KidPairs # {}
    [] a = "copy" -> CopyIds # {}
    [] a = "addvt" -> Len(s.v.vtr) < 3
    [] a \in {"move", "mesh"} -> Len(s.obj) > 0
    [] a = "refl" -> ReflIds # {}
    [] a = "clust" -> Unmeshed # {}
    [] a = "break" -> Breakable # {}
    [] a = "apply" -> ApplyIds # {}
    [] a = "analyse" -> s.v.comps # <<>>
    [] a = "dens" -> Mode = "export" /\ s.v.comps # <<>>
    [] OTHER -> TRUE
RECURSIVE Random(_)
Random(z) == LET a == PickFrom(1, R(1..Sum(Len(Order)))) IN IF Enough(a) THEN a ELSE Random(z)
Childless == \E c \in Tops : s.obj[c].type = "composite" /\ s.obj[c].kids = <<>>
(* early steps mostly build something to work on *)
KidCount == IF Composites = {} THEN 0 ELSE LET n(c) == Len(s.obj[c].kids) IN n(CHOOSE c \in Composites : \A e \in Composites : n(e) <= n(c))
PickComposite(z) ==
  IF Len(s.obj) < 3 THEN "new"
  ELSE IF s.v.comps = <<>> /\ Enough("add") /\ Chance(25) THEN "add"
  ELSE IF KidCount < 2 /\ Enough("kid") /\ Chance(80) THEN "kid"
  ELSE IF KidCount < 6 /\ ~s.v.gen /\ Enough("kid") /\ Chance(60) THEN "kid"
  ELSE IF KidCount < 6 /\ ~s.v.gen /\ Enough("new") /\ Chance(50) THEN "new"
  ELSE IF KidCount >= 2 /\ Enough("add") /\ Chance(50) THEN "add"
  ELSE IF s.v.comps # <<>> /\ ~s.v.gen /\ Chance(50) THEN "gen"
  ELSE Random(z)
Pick(z) == IF Mode = "composite" THEN PickComposite(z)
           ELSE IF Len(s.obj) < 2 /\ Chance(80) THEN "new"
           ELSE IF Childless /\ Enough("kid") /\ Chance(60) THEN "kid"
           ELSE IF s.v.comps = <<>> /\ Enough("add") /\ Chance(60) THEN "add"
           ELSE IF Len(hist) > 5 /\ ~s.v.gen /\ Mode # "registry" /\ Chance(50) THEN "gen"
           ELSE Random(z)
Next ==
  \/ /\ Len(hist) < MaxLen
     /\ \E a \in {Pick(0)} : Act(a)
  \/ /\ Len(hist) >= MaxLen /\ ~bang
     /\ bang' = PrintT("@@GEN|" \o ToJson(hist))
     /\ UNCHANGED <<s, hist>>
=============================================================================
