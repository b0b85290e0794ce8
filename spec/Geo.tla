-------------------------------- MODULE Geo --------------------------------
(* Denotational semantics of paths and surface patches.                      *)
(* A path or patch is a term (record with field k naming the constructor,    *)
(* arguments in the other fields); Pt(p, t) and Sf(s, r, t) give the exact   *)
(* point it denotes.  Angles are rational points of the unit circle          *)
(* cs = <<c, s, d>> meaning cos = c/d, sin = s/d; m times that angle is      *)
(* obtained by complex multiplication, so rotations, arcs, cones and         *)
(* surfaces of revolution stay exact.                                        *)
EXTENDS Rat

Q2(v) == QN(v[1], v[2])

(* --- rational angles --- *)
CsMul(a, b) == LET re == QSub(QMul(a[1], b[1]), QMul(a[2], b[2]))
                   im == QAdd(QMul(a[1], b[2]), QMul(a[2], b[1]))
               IN <<re, im>>
RECURSIVE CsPow(_, _)
CsPow(a, k) == IF k = 0 THEN <<QOne, QZero>>
               ELSE IF k < 0 THEN LET p == CsPow(a, -k) IN <<p[1], QNeg(p[2])>>
               ELSE CsMul(a, CsPow(a, k - 1))
(* the base angles used, in microradians *)
AngMicro(cs) ==
  CASE cs = <<0, 1, 1>> -> 1570796
    [] cs = <<-1, 0, 1>> -> 3141593
    [] cs = <<4, 3, 5>> -> 643501
    [] cs = <<3, 4, 5>> -> 927295
    [] cs = <<12, 5, 13>> -> 394791
    [] cs = <<15, 8, 17>> -> 489957
    [] cs = <<24, 7, 25>> -> 283794
    [] OTHER -> 0
Cs(cs) == <<QN(cs[1], cs[3]), QN(cs[2], cs[3])>>
(* the fraction t of an angle m*theta, when it is a multiple of theta *)
CsFrac(cs, m, t) ==
  IF t[2] = 0 \/ (m * t[1]) % t[2] # 0 THEN <<QUnk, QUnk>>
  ELSE CsPow(Cs(cs), (m * t[1]) \div t[2])
(* angle m0*theta*(1-t) + m1*theta*t *)
CsBetween(cs, m0, m1, t) ==
  LET a == QAdd(QI(m0), QMul(t, QI(m1 - m0))) IN
  IF a[2] # 1 THEN <<QUnk, QUnk>> ELSE CsPow(Cs(cs), a[1])

(* --- affine and bilinear point functions --- *)
(* f = [m |-> 3x4 integer matrix rows (last column constant), d |-> denominator, *)
(*      q |-> coefficient of x*y in the z component]                         *)
FRow(row, p, d) ==
  QDiv(QAdd(QAdd(QMul(QI(row[1]), VX(p)), QMul(QI(row[2]), VY(p))),
            QAdd(QMul(QI(row[3]), VZ(p)), QI(row[4]))), QI(d))
FApp(f, p) ==
  VQ(FRow(f.m[1], p, f.d), FRow(f.m[2], p, f.d),
     QAdd(FRow(f.m[3], p, f.d), QDiv(QMul(QI(f.q), QMul(VX(p), VY(p))), QI(f.d))))

RECURSIVE Cast(_, _)
Cast(B, t) ==  \* de Casteljau, recursively over the two shorter curves
  IF Len(B) = 1 THEN B[1]
  ELSE Cast([i \in 1..(Len(B) - 1) |-> VLerp(B[i], B[i + 1], t)], t)

RECURSIVE Pt(_, _), PLen(_), Sf(_, _, _), SegOf(_, _, _)

(* index of the first segment whose end is at or after length x *)
SegOf(cum, x, i) == IF i = Len(cum) \/ QLe(x, cum[i]) THEN i ELSE SegOf(cum, x, i + 1)

PolySegs(p) ==
  IF p.closed /\ Pt(p.segs[1], QZero) # Pt(p.segs[Len(p.segs)], QOne)
  THEN Append(p.segs, [k |-> "line", p0 |-> Pt(p.segs[Len(p.segs)], QOne), p1 |-> Pt(p.segs[1], QZero)])
  ELSE p.segs

(* weight points of the interpolating spline: d0 = p0, dm = pm and           *)
(* d(i-1) + 4 d(i) + d(i+1) = 6 p(i), solved exactly by elimination          *)
RECURSIVE SplC(_), SplV(_, _)
SplC(i) == IF i = 1 THEN QN(1, 4) ELSE QInv(QSub(QI(4), SplC(i - 1)))
SplV(P, i) ==  \* P = interpolation points, i = interior index 1..m-1 (P[i+1])
  LET m == Len(P) - 1
      rhs0 == VScale(P[i + 1], QI(6))
      rhs1 == IF i = m - 1 THEN VSub(rhs0, P[m + 1]) ELSE rhs0
      rhs == IF i = 1 THEN VSub(rhs1, P[1]) ELSE VSub(rhs1, SplV(P, i - 1))
  IN VScale(rhs, SplC(i))
RECURSIVE SplW(_, _)
SplW(P, i) ==  \* weight point i, 0..m
  LET m == Len(P) - 1 IN
  IF i = 0 THEN P[1] ELSE IF i = m THEN P[m + 1]
  ELSE IF i = m - 1 THEN SplV(P, i)
  ELSE VSub(SplV(P, i), VScale(SplW(P, i + 1), SplC(i)))
SplSeg(P, i) ==  \* i-th Bezier segment, 1..m
  LET a == SplW(P, i - 1)
      b == SplW(P, i)
  IN <<P[i], VScale(VAdd(VScale(a, QI(2)), b), QN(1, 3)),
       VScale(VAdd(a, VScale(b, QI(2))), QN(1, 3)), P[i + 1]>>

Pt(p, t) ==
  CASE p.k = "line" -> VLerp(V(p.p0), V(p.p1), t)
    [] p.k = "bez" -> Cast([i \in 1..Len(p.B) |-> V(p.B[i])], t)
    [] p.k = "poly" ->
         LET segs == PolySegs(p)
             lens == [i \in 1..Len(segs) |-> PLen(segs[i])]
             cum == [i \in 1..Len(segs) |-> QSumSeq(SubSeq(lens, 1, i))]
             x == QMul(t, cum[Len(segs)])
             i == SegOf(cum, x, 1)
             x0 == IF i = 1 THEN QZero ELSE cum[i - 1]
         IN Pt(segs[i], QDiv(QSub(x, x0), lens[i]))
    [] p.k = "spl" ->  \* t = segment number + local parameter
         LET P == [i \in 1..Len(p.P) |-> V(p.P[i])] IN Cast(SplSeg(P, p.seg), t)
    [] p.k = "sub" -> Pt(p.u, QAdd(Q2(p.t0), QMul(t, QSub(Q2(p.t1), Q2(p.t0)))))
    [] p.k = "rev" -> Pt(p.u, QSub(QOne, t))
    [] p.k = "shl" -> VAdd(Pt(p.u, t), V(p.v))
    [] p.k = "off" -> LET x == Pt(p.u, t) IN VAdd(x, FApp(p.f, x))
    [] p.k = "mean" -> VScale(VAdd(Pt(p.a, t), Pt(p.b, t)), QN(1, 2))
    [] p.k = "arc" ->
         LET c == CsFrac(p.cs, p.m, t) IN
         VAdd(V(p.c), VScale(VAdd(VScale(V(p.e1), c[1]), VScale(V(p.e2), c[2])), Q2(p.R)))
    [] p.k = "alp" ->  \* by arc length; straight monotone curves become uniform
         IF p.u.k = "bez" THEN VLerp(V(p.u.B[1]), V(p.u.B[Len(p.u.B)]), t) ELSE Pt(p.u, t)
    [] p.k = "te" -> LET x == VLerp(V(p.p0), V(p.p1), t) IN VAdd(x, FApp(p.f, x))
    [] p.k = "per" ->
         LET x == QMul(t, QI(4)) IN
         IF QLt(x, QOne) THEN Sf(p.u, x, QZero)
         ELSE IF QLt(x, QI(2)) THEN Sf(p.u, QOne, QSub(x, QOne))
         ELSE IF QLt(x, QI(3)) THEN Sf(p.u, QSub(QI(3), x), QOne)
         ELSE IF QLt(x, QI(4)) THEN Sf(p.u, QZero, QSub(QI(4), x))
         ELSE Sf(p.u, QZero, QZero)

PLen(p) ==
  CASE p.k = "line" -> VNorm(VSub(V(p.p1), V(p.p0)))
    [] p.k = "bez" -> VNorm(VSub(V(p.B[Len(p.B)]), V(p.B[1])))  \* straight ones only
    [] p.k = "poly" -> LET s == PolySegs(p) IN QSumSeq([i \in 1..Len(s) |-> PLen(s[i])])
    [] p.k = "sub" -> QMul(QAbs(QSub(Q2(p.t1), Q2(p.t0))), PLen(p.u))
    [] p.k = "rev" -> PLen(p.u)
    [] p.k \in {"alp", "shl"} -> PLen(p.u)
    [] p.k \in {"off", "mean", "te"} -> VNorm(VSub(Pt(p, QOne), Pt(p, QZero)))  \* straight ones only
    [] OTHER -> QUnk

RotPt(p, ax, c, s) ==
  CASE ax = "x" -> VQ(VX(p), QSub(QMul(VY(p), c), QMul(VZ(p), s)), QAdd(QMul(VY(p), s), QMul(VZ(p), c)))
    [] ax = "y" -> VQ(QAdd(QMul(VX(p), c), QMul(VZ(p), s)), VY(p), QSub(QMul(VZ(p), c), QMul(VX(p), s)))
    [] ax = "z" -> VQ(QSub(QMul(VX(p), c), QMul(VY(p), s)), QAdd(QMul(VX(p), s), QMul(VY(p), c)), VZ(p))
MirPt(p, ax) ==
  CASE ax = "x" -> <<-p[1], p[2], p[3], p[4]>>
    [] ax = "y" -> <<p[1], -p[2], p[3], p[4]>>
    [] ax = "z" -> <<p[1], p[2], -p[3], p[4]>>
(* curvature: the normal coordinate z is laid off perpendicular to a line of *)
(* the given slope; sl = <<n, d, h>> with h^2 = n^2 + d^2                    *)
CurvPt(p, c) ==
  LET sl == IF QLt(VX(p), QN(c.x0, 97)) THEN c.sl1 ELSE c.sl2
      sn == QN(sl[1], sl[3])
      cn == QN(sl[2], sl[3])
      o == VZ(FApp(c.f, VQ(VX(p), VY(p), QZero)))
      z == QAdd(QMul(VZ(p), cn), o)
  IN IF c.dir = "x" THEN VQ(QSub(VX(p), QMul(VZ(p), sn)), VY(p), z)
     ELSE VQ(VX(p), QSub(VY(p), QMul(VZ(p), sn)), z)

(* outward faces of the cube [-1,1]^3, r then s anticlockwise from outside *)
Face(f, r, t) ==
  LET a == QSub(QMul(QI(2), r), QOne)
      b == QSub(QMul(QI(2), t), QOne)
  IN CASE f = "east" -> VQ(QOne, a, b)
       [] f = "west" -> VQ(QI(-1), b, a)
       [] f = "south" -> VQ(a, QI(-1), b)
       [] f = "north" -> VQ(b, QOne, a)
       [] f = "bottom" -> VQ(b, a, QI(-1))
       [] f = "top" -> VQ(a, b, QOne)

RECURSIVE SecOf(_, _, _)
SecOf(os, x, i) == IF i = Len(os) - 1 \/ QLt(x, os[i + 1]) THEN i ELSE SecOf(os, x, i + 1)

AxQ(v, ax) == CASE ax = "x" -> VX(v) [] ax = "y" -> VY(v) [] ax = "z" -> VZ(v)

Coons(n, e, s, w, r, t) ==
  LET r1 == QSub(QOne, r)
      t1 == QSub(QOne, t)
  IN VSub(VAdd(VAdd(VScale(Pt(s, r), t1), VScale(Pt(n, r), t)),
               VAdd(VScale(Pt(w, t), r1), VScale(Pt(e, t), r))),
          VAdd(VAdd(VScale(Pt(s, QZero), QMul(r1, t1)), VScale(Pt(n, QZero), QMul(r1, t))),
               VAdd(VScale(Pt(s, QOne), QMul(r, t1)), VScale(Pt(n, QOne), QMul(r, t)))))

(* trailing edge of a flap: mean line offset by length and angle *)
TeLine(mp, len, cs) ==
  LET d == VQ(QNeg(QMul(Q2(len), Q2(<<cs[1], cs[3]>>))), QZero, QMul(Q2(len), Q2(<<cs[2], cs[3]>>)))
  IN [k |-> "line", p0 |-> VAdd(Pt(mp, QZero), d), p1 |-> VAdd(Pt(mp, QOne), d)]
LineOf(a, b) == [k |-> "line", p0 |-> a, p1 |-> b]

Sf(s, r, t) ==
  CASE s.k = "coons" -> VAdd(Coons(s.n, s.e, s.s, s.w, r, t), V(s.o))
    [] s.k = "coonsc" ->
         VAdd(Coons(LineOf(s.p01, s.p11), LineOf(s.p10, s.p11), LineOf(s.p00, s.p10), LineOf(s.p00, s.p01), r, t), V(s.o))
    [] s.k = "swe" ->
         LET n == Len(s.edges)
             x == QMul(r, QI(n - 1))
             f == x[1] \div Max2(1, x[2])
             i == IF x[2] = 0 THEN 1 ELSE Max2(0, Min2(n - 2, f)) + 1
         IN IF x[2] = 0 THEN VUnk ELSE VLerp(Pt(s.edges[i], t), Pt(s.edges[i + 1], t), QSub(x, QI(i - 1)))
    [] s.k = "sw" ->
         LET os == [i \in 1..Len(s.secs) |-> AxQ(Sf(s.secs[i], QZero, QZero), s.ax)]
             x == QAdd(os[1], QMul(r, QSub(os[Len(os)], os[1])))
             i == SecOf(os, x, 1)
             f == QDiv(QSub(x, os[i]), QSub(os[i + 1], os[i]))
             lo == Pt([k |-> "per", u |-> s.secs[i]], t)
             up == Pt([k |-> "per", u |-> s.secs[i + 1]], t)
             q == VLerp(lo, up, f)
         IN IF s.ax = "x" THEN VQ(x, VY(q), VZ(q))
            ELSE IF s.ax = "y" THEN VQ(VX(q), x, VZ(q))
            ELSE VQ(VX(q), VY(q), x)
    [] s.k = "rot" ->
         LET c == Cs(s.cs) IN VAdd(RotPt(VSub(Sf(s.u, r, t), V(s.pt)), s.ax, c[1], c[2]), V(s.pt))
    [] s.k = "mir" -> MirPt(Sf(s.u, r, t), s.ax)
    [] s.k = "off" -> LET x == Sf(s.u, r, t) IN VAdd(x, FApp(s.f, x))
    [] s.k = "curv" -> CurvPt(Sf(s.u, r, t), s)
    [] s.k = "cube" -> VAdd(V(s.c), VScale(Face(s.face, r, t), Q2(s.a)))
    [] s.k = "cone" ->
         LET c == CsBetween(s.cs, s.m0, s.m1, t)
             x == QAdd(QMul(QI(s.x0), QSub(QOne, r)), QMul(QI(s.x1), r))
             rad == QAdd(QMul(QI(s.r0), QSub(QOne, r)), QMul(QI(s.r1), r))
         IN VQ(x, QMul(rad, c[1]), QMul(rad, c[2]))
    [] s.k = "rvl" ->
         LET c == CsBetween(s.cs, s.m0, s.m1, t)
             p == Pt(s.line, r)
         IN VQ(VX(p), QAdd(QMul(VY(p), c[1]), QMul(VZ(p), c[2])), QSub(QMul(VZ(p), c[1]), QMul(VY(p), c[2])))
    [] s.k = "fle" ->
         LET x == QSub(Q2(s.t1), QMul(r, QSub(Q2(s.t1), Q2(s.t0))))
             a == Pt(s.a, x)
             b == Pt(s.b, x)
         IN VQ(VX(a), VY(a), QAdd(QMul(QSub(QOne, t), VZ(a)), QMul(t, VZ(b))))
    [] s.k = "mte" ->
         LET fl == TeLine(s.mean, s.len, s.cs) IN
         IF s.side = "top"
         THEN Coons(s.te, LineOf(Pt(fl, QOne), Pt(s.te, QOne)), fl, LineOf(Pt(fl, QZero), Pt(s.te, QZero)), r, t)
         ELSE Coons(fl, LineOf(Pt(s.te, QOne), Pt(fl, QOne)), s.te, LineOf(Pt(s.te, QZero), Pt(fl, QZero)), r, t)
=============================================================================
