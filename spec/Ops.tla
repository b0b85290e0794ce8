-------------------------------- MODULE Ops --------------------------------
(* Operations on geometry as point maps, on integer coordinates in           *)
(* millionths of a unit.  Rotation angles are rational points of the unit    *)
(* circle and curvature slopes Pythagorean triples, so each map is a         *)
(* division of small integers; results are within one unit per operation.    *)
EXTENDS Integers, Sequences, FiniteSets

MAbs(x) == IF x < 0 THEN -x ELSE x
Lost == -2000000000            \* a coordinate that left the representable range
BadObs == 2000000000           \* an observation that was an exception or NaN
Range == 50000000
RDiv(n, d) == (2 * n + d) \div (2 * d)
Fit(p) == IF \A c \in 1..3 : MAbs(p[c]) <= Range THEN p ELSE <<Lost, Lost, Lost>>
Gone(p) == p[1] = Lost

(* an affine displacement: rows of integer coefficients, last a constant *)
MRow(row, p, d) == RDiv(row[1] * p[1] + row[2] * p[2] + row[3] * p[3] + row[4] * 1000000, d)

OpPt(op, p) ==
  IF Gone(p) THEN p
  ELSE IF op.o = "off" THEN
    Fit(<<p[1] + MRow(op.m[1], p, op.d), p[2] + MRow(op.m[2], p, op.d), p[3] + MRow(op.m[3], p, op.d)>>)
  ELSE IF op.o = "rot" THEN
    LET c == op.cs[1]
        s == op.cs[2]
        d == op.cs[3]
    IN CASE op.ax = "x" -> Fit(<<p[1], RDiv(p[2] * c - p[3] * s, d), RDiv(p[2] * s + p[3] * c, d)>>)
         [] op.ax = "y" -> Fit(<<RDiv(p[1] * c + p[3] * s, d), p[2], RDiv(p[3] * c - p[1] * s, d)>>)
         [] op.ax = "z" -> Fit(<<RDiv(p[1] * c - p[2] * s, d), RDiv(p[1] * s + p[2] * c, d), p[3]>>)
  ELSE IF op.o = "mir" THEN
    (CASE op.ax = "x" -> <<-p[1], p[2], p[3]>>
       [] op.ax = "y" -> <<p[1], -p[2], p[3]>>
       [] op.ax = "z" -> <<p[1], p[2], -p[3]>>)
  ELSE \* curvature: z is laid off normal to a line of the given slope, plus a height
    LET sl == IF p[1] < op.x0 THEN op.sl1 ELSE op.sl2
        h == MRow(op.row, <<p[1], p[2], 0>>, op.d)
        off == RDiv(p[3] * sl[1], sl[3])
        z == RDiv(p[3] * sl[2], sl[3]) + h
    IN IF MAbs(p[1] - op.x0) < 100 THEN <<Lost, Lost, Lost>>
       ELSE IF op.dir = "x" THEN Fit(<<p[1] - off, p[2], z>>)
       ELSE Fit(<<p[1], p[2] - off, z>>)

RECURSIVE ChainPt(_, _)
ChainPt(ch, p) == IF ch = <<>> THEN p ELSE ChainPt(Tail(ch), OpPt(Head(ch), p))

CloseI(a, b, tol) == b # BadObs /\ MAbs(a - b) <= tol
CloseP(p, o, tol) == CloseI(p[1], o[1], tol) /\ CloseI(p[2], o[2], tol) /\ CloseI(p[3], o[3], tol)
=============================================================================
