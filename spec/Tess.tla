-------------------------------- MODULE Tess --------------------------------
(* Tessellation of patches (P05): the grid of parameters, the four triangles *)
(* of every cell, and what makes a set of triangles a closed surface (P06).  *)
EXTENDS Geo, TLC

(* grid lines: uniform, by a spacing exponent, or by a clustering function *)
Line1(cf, x) ==
  CASE cf = "u" -> x
    [] cf = "p2" -> QMul(x, x)
    [] cf = "p3" -> QMul(x, QMul(x, x))
    [] cf = "sq" -> QMul(x, x)
    [] cf = "rsq" -> QSub(QOne, QMul(QSub(QOne, x), QSub(QOne, x)))
    [] cf = "mix" -> QMul(QN(1, 2), QAdd(x, QMul(x, x)))
    [] cf = "rev" -> QSub(QOne, x)
GridLine(cf, n, k) == Line1(cf, QN(k, n))

Mean4(a, b, c, d) == VScale(VAdd(VAdd(a, b), VAdd(c, d)), QN(1, 4))
(* anticlockwise in the (r, s) plane *)
Cell(a, b, c, d) == LET m == Mean4(a, b, c, d) IN << <<a, b, m>>, <<b, c, m>>, <<c, d, m>>, <<d, a, m>> >>
(* all nodes once, then the cells *)
Nodes(s, ni, nj, ci, cj) == TLCEval([i \in 0..ni |-> [j \in 0..nj |-> Sf(s, GridLine(ci, ni, i), GridLine(cj, nj, j))]])
CellAt(N, i, j) == Cell(N[i - 1][j - 1], N[i][j - 1], N[i][j], N[i - 1][j])
(* the triangles as a function of cell and side *)
Tris(s, ni, nj, ci, cj) ==
  LET N == Nodes(s, ni, nj, ci, cj) IN
  TLCEval([c \in (1..ni) \X (1..nj) |-> CellAt(N, c[1], c[2])])
Unknown(T) == \E c \in DOMAIN T : \E k \in 1..4 : \E v \in 1..3 : T[c][k][v][4] = 0

---------------------------------------------------------------------------
(* closed surfaces: triangles of vertex names *)
Deg(t) == t[1] = t[2] \/ t[2] = t[3] \/ t[1] = t[3]
Edges(T) == TLCEval(UNION {{<<T[k][1], T[k][2]>>, <<T[k][2], T[k][3]>>, <<T[k][3], T[k][1]>>} : k \in {k \in 1..Len(T) : ~Deg(T[k])}})
Proper(T) == Cardinality({k \in 1..Len(T) : ~Deg(T[k])})
Distinct(T) == Cardinality(Edges(T)) = 3 * Proper(T)
OpenEdges(T) == LET E == Edges(T) IN {e \in E : <<e[2], e[1]>> \notin E}
Closed(T) == Distinct(T) /\ OpenEdges(T) = {}

(* six times the enclosed volume of triangles of exact points *)
Det(t) == VDot(t[1], VCross(t[2], t[3]))
RECURSIVE Vol6(_, _, _)
Vol6(T, a, b) ==  \* triangles a..b
  IF a > b THEN QZero ELSE IF a = b THEN Det(T[a])
  ELSE LET m == (a + b) \div 2 IN QAdd(Vol6(T, a, m), Vol6(T, m + 1, b))
=============================================================================
