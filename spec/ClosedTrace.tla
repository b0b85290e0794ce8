---------------------------- MODULE ClosedTrace ----------------------------
(* Recorded meshes of whole components (P06, P07): closed, oriented, of the  *)
(* right volume, and passing through the points their parameters demand.     *)
(* T lists triangles of merged vertex numbers, vol the enclosed volume in    *)
(* millionths as the code reports it.                                        *)
EXTENDS Tess, TraceLib
VARIABLES h, i

---------------------------------------------------------------------------
(* exact volume of the bodies that have a rational one *)
RECURSIVE Shoe(_, _)
Shoe(q, k) ==  \* twice the signed area of the polygon, x-axis pointing out
  IF k = 0 THEN 0
  ELSE LET a == q[k]
           b == q[(k % Len(q)) + 1]
       IN a[1] * b[2] - b[1] * a[2] + Shoe(q, k - 1)
RECURSIVE PartVol(_), SumVol(_, _)
PartVol(b) ==
  CASE b.k = "cube" -> QMul(QI(8), QPow(Q2(b.a), 3))
    [] b.k = "box" -> QN(-Shoe(b.q, Len(b.q)) * b.len, 2 * b.d * b.d * b.d)
    [] b.k = "parts" -> SumVol(b.p, Len(b.p))
    [] OTHER -> QUnk
SumVol(p, k) == IF k = 0 THEN QZero ELSE QAdd(PartVol(p[k]), SumVol(p, k - 1))

Tight(a, b) == Abs(a - b) <= 60 + (Abs(b) \div 2000)
Shape(T) == (IF Distinct(T) THEN {} ELSE {"edge used twice"}) \cup (IF OpenEdges(T) = {} THEN {} ELSE {"open edge"})
(* A reflection keeps the volume; a mirrored copy beside the original        *)
(* doubles it.  An inside out mirror image is told apart from other errors.  *)
Volume(e, v0) ==
  LET want == IF e.refl = "app" THEN 2 * v0 ELSE v0 IN
  IF e.vol = NaNObs \/ e.vol0 = NaNObs THEN {"volume"}
  ELSE IF Tight(e.vol, want) THEN {}
  ELSE IF e.refl = "rep" /\ Tight(e.vol, -v0) THEN {"mirror image inside out"}
  ELSE IF e.refl = "app" /\ Abs(e.vol) <= 60 + (Abs(v0) \div 2000) THEN {"mirror image inside out"}
  ELSE {"volume"}
(* where a body lies before it is moved *)
MinOf(S) == CHOOSE x \in S : \A y \in S : QLe(x, y)
MaxOf(S) == CHOOSE x \in S : \A y \in S : QLe(y, x)
PlaceBad(e) ==
  LET b == e.body
      lo == e.lo
      hi == e.hi
      c(k) == Micro(<<b.c[k], b.c[4]>>)
      a == Micro(Q2(b.a))
      col(k) == UNION {{QN(b.q[j][k], b.d), QN(b.q[j][k] + b.sh[k], b.d)} : j \in 1..Len(b.q)}
      ok == CASE b.k = "cube" -> \A k \in 1..3 : Tight(lo[k], c(k) - a) /\ Tight(hi[k], c(k) + a)
             [] b.k = "sphere" -> \A k \in 1..3 : /\ Abs(lo[k] + hi[k] - 2 * c(k)) <= 120
                                                  /\ hi[k] - lo[k] <= 2000100 * b.r /\ hi[k] - lo[k] >= 1500000 * b.r
             [] b.k = "box" -> /\ Tight(lo[1], Micro(QN(b.x, b.d))) /\ Tight(hi[1], Micro(QN(b.x + b.len, b.d)))
                               /\ \A k \in 1..2 : Tight(lo[k + 1], Micro(MinOf(col(k)))) /\ Tight(hi[k + 1], Micro(MaxOf(col(k))))
             [] b.k = "ogive" -> /\ Tight(lo[1], Micro(QN(-b.L, 4))) /\ Tight(hi[1], Micro(QN(b.c0 + b.n, b.den)))
                                 /\ \A k \in 2..3 : hi[k] <= Micro(QN(b.h, b.den)) + 60 /\ Tight(lo[k], -hi[k])
             [] OTHER -> TRUE
  IN IF ok THEN {} ELSE {"place"}
(* the outline of an ogive nose from tip to base: nose circle, ogive circle, *)
(* straight body, base; in thousandths                                       *)
Milli(a, d) == (1000 * a) \div d
OnCircle(x, y, x0, y0, r) == Abs((x - x0) * (x - x0) + (y - y0) * (y - y0) - r * r) <= 6 * r + 9
OutlineBad(e) ==
  LET b == e.body
      P == e.prof
      m(a) == Milli(a, b.den)
      on(p) == \/ p[1] >= m(b.c0) /\ OnCircle(p[1], p[2], m(b.c0), 0, m(b.n))
               \/ p[1] >= -3 /\ OnCircle(p[1], p[2], 0, m(b.h - b.o), m(b.o))
               \/ p[1] <= 3 /\ Abs(p[2] - m(b.h)) <= 3
               \/ Abs(p[1] + Milli(b.L, 4)) <= 3
  IN IF b.k # "ogive" THEN {}
     ELSE IF Len(P) # 41 \/ \E k \in 1..Len(P) : \E c \in 1..2 : Abs(P[k][c]) > 20000 THEN {"outline"}
     ELSE IF /\ \A k \in 1..41 : on(P[k]) /\ P[k][2] <= m(b.h) + 3
             /\ \A k \in 1..40 : P[k][1] >= P[k + 1][1] - 2
             /\ P[1][2] <= 3 /\ P[41][2] <= 3 THEN {} ELSE {"outline"}
BodyBad(e) ==
  IF e.err # "" THEN {"failed"}
  ELSE Shape(e.T) \cup PlaceBad(e) \cup OutlineBad(e)
       \cup (LET q == PartVol(e.body) IN
             IF q[2] # 0 /\ Abs(q[1]) \div q[2] < 900 THEN Volume(e, Micro(q)) \cup (IF Tight(e.vol0, Micro(q)) THEN {} ELSE {"volume"})
             ELSE Volume(e, e.vol0))
       \cup (IF e.positive /\ ~(e.vol0 > 0) THEN {"inside out"} ELSE {})
       \* a sphere is filled from inside: 4/3 pi r^3 less the facets
       \cup (IF e.body.k = "sphere" /\ ~(/\ e.vol0 <= 4188850 * e.body.r * e.body.r * e.body.r
                                        /\ e.vol0 >= 1800000 * e.body.r * e.body.r * e.body.r) THEN {"volume"} ELSE {})

---------------------------------------------------------------------------
(* fins and wings: points the surface must have as vertices *)
Has(Vs, p) == p[4] = 0 \/ \E k \in 1..Len(Vs) : NearV(Vs[k], p, 150)
At(x, y, z) == VQ(x, y, z)
Up(p, x, y, z) == VAdd(p, VQ(x, y, z))
LEW(w, t) ==  \* width a + b t, unless given 0.01 at the ends of a parabola over 0.1
  LET u == QSub(QOne, t) IN
  IF w.given THEN QAdd(Q2(w.a), QMul(t, Q2(w.b)))
  ELSE QAdd(QMul(QN(1, 100), QAdd(QMul(t, t), QMul(u, u))), QMul(QN(2, 10), QMul(t, u)))
Tri(cs) == <<QN(cs[1], cs[3]), QN(cs[2], cs[3])>>

FinPts(e) ==
  LET H == QMul(Q2(e.th), QN(1, 2))
      P == <<V(e.p[1]), V(e.p[2]), V(e.p[3]), V(e.p[4])>>
      L == Q2(e.len)
      sn == Tri(e.ra)[2]
  IN {Up(P[k], QZero, QZero, H) : k \in 1..4} \cup {Up(P[k], QZero, QZero, QNeg(H)) : k \in 1..4}
     \cup {Up(P[2], QZero, LEW(e.w, QZero), QZero), Up(P[4], LEW(e.w, QOne), QZero, QZero)}
     \cup (IF e.sharp THEN {Up(P[k], QNeg(L), QZero, QMul(L, sn)) : k \in 1..2} ELSE {})
FinMove(e, p) ==
  LET a == Tri(e.pa)
      b == Tri(e.fa)
      q == VAdd(RotPt(VSub(p, V(e.pp)), "y", a[1], a[2]), V(e.pp))
      u == RotPt(q, "x", b[1], b[2])
  IN IF e.off = <<>> THEN u ELSE VAdd(u, FApp(e.off[1], u))

(* leading edge curve of a wing from B0 to TT *)
WingPts(e) ==
  LET P(t) == Pt(e.line, t)
      t1 == IF e.t1 # <<>> THEN Q2(e.t1) ELSE QUnk
      t2 == IF e.t2 # <<>> THEN Q2(e.t2) ELSE IF e.t1 # <<>> THEN QMul(QN(1, 2), QAdd(QOne, t1)) ELSE QUnk
      base == {V(e.A0), V(e.A1), V(e.B0), V(e.TT)} \cup (IF t1[2] = 0 THEN {} ELSE {P(t1)}) \cup (IF t2[2] = 0 THEN {} ELSE {P(t2)})
      top(p) == VAdd(p, FApp(e.top, p))
      bot(p) == VAdd(p, FApp(e.bot, p))
      mid(p) == VScale(VAdd(top(p), bot(p)), QN(1, 2))
      L == Q2(e.len)
      c == Tri(e.fa)
      apex(t) == IF e.nrm = <<>> \/ t[2] = 0 THEN {}
                 ELSE {LET w == LEW(e.w, t) IN Up(mid(P(t)), QMul(w, QN(e.nrm[1], e.nrm[3])), QMul(w, QN(e.nrm[2], e.nrm[3])), QZero)}
  IN {top(p) : p \in base} \cup {bot(p) : p \in base}
     \cup {Up(mid(p), QNeg(QMul(L, c[1])), QZero, QMul(L, c[2])) : p \in {V(e.A0), V(e.B0)}}
     \cup (IF e.flat THEN {} ELSE {Up(mid(V(e.B0)), QZero, LEW(e.w, QZero), QZero), Up(mid(V(e.TT)), LEW(e.w, QOne), QZero, QZero)} \cup apex(t1) \cup apex(t2))

FinBad(e) ==
  IF e.err # "" THEN {"failed"}
  ELSE Shape(e.T) \cup (IF e.vol > 0 THEN {} ELSE {"inside out"})
       \cup (IF \A p \in FinPts(e) : Has(e.V, FinMove(e, p)) THEN {} ELSE {"position"})
WingBad(e) ==
  IF e.err # "" THEN {"failed"}
  ELSE (IF Distinct(e.T) THEN {} ELSE {"edge used twice"})
       \cup (LET O == OpenEdges(e.T) IN
             IF e.close THEN IF O = {} THEN {} ELSE {"open edge"}
             ELSE IF O = {} THEN {"closed unasked"}
             ELSE IF \A x \in O : Abs(e.V[x[1]][2]) <= 150 /\ Abs(e.V[x[2]][2]) <= 150 THEN {} ELSE {"open edge"})
       \cup (IF e.close /\ ~(e.vol > 0) THEN {"inside out"} ELSE {})
       \cup (IF \A p \in WingPts(e) : Has(e.V, p) THEN {} ELSE {"position"})

Bad(e) == CASE e.op = "body" -> BodyBad(e) [] e.op = "fin" -> FinBad(e) [] e.op = "wing" -> WingBad(e) [] e.op = "lost" -> {"lost"}
Init == h \in 1..NH /\ i = 1
Next == /\ i <= Len(Hist[h].ev)
        /\ Report(h, i, Bad(Hist[h].ev[i]))
        /\ i' = i + 1
        /\ h' = h
=============================================================================
