------------------------------- MODULE MCTess -------------------------------
(* Facts about tessellations, for every resolution and clustering within     *)
(* bounds: the parameter square is covered exactly once and in the right     *)
(* sense, the boundary is that of the square, and cubes and swept boxes mesh *)
(* to closed surfaces enclosing the exact volume at every resolution.        *)
EXTENDS Tess
CONSTANTS MaxN, MaxC
VARIABLES x
CF == {"u", "sq", "rsq", "mix", "p3"}
Square == [k |-> "coonsc", p00 |-> <<0, 0, 0, 1>>, p10 |-> <<1, 0, 0, 1>>, p11 |-> <<1, 1, 0, 1>>, p01 |-> <<0, 1, 0, 1>>, o |-> <<0, 0, 0, 1>>]
Faces == <<"east", "west", "south", "north", "bottom", "top">>
Cube == [k \in 1..6 |-> [k |-> "cube", a |-> <<3, 2>>, c |-> <<1, -2, 1, 2>>, face |-> Faces[k]]]
(* cross sections of a swept box, and its six patches *)
Quad(px, q) == [k \in 1..4 |-> LineOf(<<px, q[k][1], q[k][2], 1>>, <<px, q[(k % 4) + 1][1], q[(k % 4) + 1][2], 1>>)]
SideP(a, b, k) == [k |-> "swe", edges |-> <<a[k], b[k]>>]
RevP(p) == [k |-> "rev", u |-> p]
CapA(a) == [k |-> "coons", s |-> a[1], e |-> a[2], n |-> RevP(a[3]), w |-> RevP(a[4]), o |-> <<0, 0, 0, 1>>]
CapB(b) == [k |-> "coons", s |-> RevP(b[1]), e |-> RevP(b[4]), n |-> b[3], w |-> b[2], o |-> <<0, 0, 0, 1>>]
(* going round so that r (along x) times s (round the section) points out *)
Q1 == << <<0, 0>>, <<0, 2>>, <<1, 2>>, <<1, 0>> >>
Box == LET a == Quad(-1, Q1)
           b == Quad(2, Q1)
       IN <<SideP(a, b, 1), SideP(a, b, 2), SideP(a, b, 3), SideP(a, b, 4), CapA(a), CapB(b)>>

(* all triangles, cell by cell *)
Flat(T, ni, nj) ==
  [k \in 1..(4 * ni * nj) |-> LET c == (k - 1) \div 4 IN T[<<(c \div nj) + 1, (c % nj) + 1>>][((k - 1) % 4) + 1]]
Body(ps, n) ==
  LET P == TLCEval([k \in 1..6 |-> Flat(Tris(ps[k], n, n, "u", "u"), n, n)])
      m == 4 * n * n
  IN [k \in 1..(6 * m) |-> P[((k - 1) \div m) + 1][((k - 1) % m) + 1]]

Init == \/ x \in [k : {"square"}, ni : 1..MaxN, nj : 1..MaxN, ci : CF, cj : CF]
        \/ x \in [k : {"cube", "box"}, ni : 1..MaxC, nj : {1}, ci : {"u"}, cj : {"u"}]
Next == UNCHANGED x

Turn(t) == VZ(VCross(VSub(t[2], t[1]), VSub(t[3], t[1])))
RECURSIVE Area2(_, _, _)
Area2(T, a, b) ==
  IF a = b THEN Turn(T[a]) ELSE LET m == (a + b) \div 2 IN QAdd(Area2(T, a, m), Area2(T, m + 1, b))
OnSide(a, b) == \E c \in 1..2 : a[c] * b[4] = b[c] * a[4] /\ (a[c] = 0 \/ a[c] = a[4])
Covered ==
  x.k = "square" =>
    LET T == TLCEval(Flat(Tris(Square, x.ni, x.nj, x.ci, x.cj), x.ni, x.nj))
        O == OpenEdges(T)
    IN /\ Len(T) = 4 * x.ni * x.nj
       /\ Area2(T, 1, Len(T)) = <<2, 1>>
       /\ \A k \in 1..Len(T) : Turn(T[k])[1] > 0
       /\ Distinct(T)
       /\ Cardinality(O) = 2 * (x.ni + x.nj)
       /\ \A e \in O : OnSide(e[1], e[2])
Solid ==
  x.k # "square" =>
    LET T == TLCEval(Body(IF x.k = "cube" THEN Cube ELSE Box, x.ni)) IN
    Closed(T) /\ Len(T) = 24 * x.ni * x.ni /\ Vol6(T, 1, Len(T)) = (IF x.k = "cube" THEN <<162, 1>> ELSE <<36, 1>>)
=============================================================================
