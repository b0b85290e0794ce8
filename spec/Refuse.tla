------------------------------- MODULE Refuse -------------------------------
(* Which requests have a meaning.  A request with a meaning is carried out,  *)
(* any other is refused with an error and leaves its arguments alone.        *)
(* Points are integer triples in units of 1/d, d a power of two.             *)
EXTENDS Integers, Sequences, FiniteSets

Prev(n, i) == IF i = n THEN 1 ELSE i + 1
(* an edge is the straight line from one point to another *)
Loop(cs) == \A i \in 1..Len(cs) : cs[i][2] = cs[Prev(Len(cs), i)][1]
(* cross sections of a swept body: equally many edges, each section a closed *)
(* loop; ends are closed by one patch, which has four edges, opposite ones   *)
(* with equally many cells                                                   *)
SweptOk(b) ==
  /\ \A k \in 1..Len(b.secs) : Len(b.secs[k]) = Len(b.secs[1]) /\ Loop(b.secs[k])
  /\ b.close => /\ Len(b.secs[1]) = 4
                /\ b.re # <<>> => b.re[1] = b.re[3] /\ b.re[2] = b.re[4]

Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Sq3(a) == a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
(* an arc needs equal radii, and three points that span a plane *)
ArcOk(e) ==
  LET u == Sub3(e.a, e.c)
      v == Sub3(e.b, e.c)
  IN Sq3(u) = Sq3(v) /\ Sq3(Cross3(u, v)) # 0

Edges == {"north", "east", "south", "west"}
Corners == {"p00", "p10", "p11", "p01"}
(* edges meet at the corners; gap names the edge one end of which was moved  *)
CoonsOk(given, gap) == (Edges \subseteq given /\ gap = <<>>) \/ (~(Edges \subseteq given) /\ Corners \subseteq given)

GridOk(e) == e.what = "patch" /\ e.niv >= 2 /\ e.njv >= 2

Things == {"vector", "int", "float", "npfloat", "npint", "array", "str", "none", "list", "tuple", "dict", "line", "patch", "points", "badpoints"}
Numbers == {"int", "float", "npfloat", "npint"}
(* what may be combined with what *)
OperandOk(op, x) ==
  CASE op \in {"v+", "v-", "v==", "dot", "line+", "patch+", "patch-"} -> x = "vector"
    [] op \in {"v*", "v/", "v*=", "v/="} -> x \in Numbers \cup {"array"}
    [] op = "Vector3" -> x \in Numbers \cup {"vector", "array"}
    [] op = "Bezier" -> x = "points"
    [] op \in {"SubRangedPath", "ReversedPath", "ArcLength"} -> x = "line"

Sides == {"top", "bot"}
Faces == {"east", "west", "south", "north", "bottom", "top"}
(* lengths along the sweep axis where the sections lie *)
SweepOk(e) == Cardinality({e.at[k] : k \in 1..Len(e.at)}) > 1
WingOk(e) == e.line \in {"Bezier", "bezier", "BEZIER"} /\ e.tail = "FLAP"

Meaning(e) ==
  CASE e.op = "swept" -> SweptOk(e)
    [] e.op = "arc" -> ArcOk(e)
    [] e.op = "coons" -> CoonsOk({e.given[k] : k \in 1..Len(e.given)}, e.gap)
    [] e.op = "grid" -> GridOk(e)
    [] e.op = "operand" -> OperandOk(e.with, e.x)
    [] e.op = "samples" -> e.n >= 1
    [] e.op = "side" -> e.side \in Sides
    [] e.op = "face" -> e.face \in Faces
    [] e.op = "curved" -> e.fun /\ e.dash
    [] e.op = "sweep" -> SweepOk(e)
    [] e.op = "wing" -> WingOk(e)
    [] e.op = "thin" -> e.top + e.bot # 0  \* the leading edge is laid about the mean surface
    [] e.op = "ready" -> e.done
=============================================================================
