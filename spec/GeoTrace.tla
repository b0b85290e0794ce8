------------------------------ MODULE GeoTrace ------------------------------
(* Recorded evaluations of paths and patches against Geo (P12, P13).         *)
EXTENDS Geo, TraceLib

VARIABLES h, i

Tol == 8   \* millionths

(* --- metric facts that need no exact point, on the logged samples --- *)
Milli(x) == x \div 1000
SqM(a, b) ==  \* squared distance of two logged points, in (milli-unit)^2
  LET dx == Milli(a[1] - b[1])
      dy == Milli(a[2] - b[2])
      dz == Milli(a[3] - b[3])
  IN dx * dx + dy * dy + dz * dz
DistM(a, b) == ISqrt(SqM(a, b))
RECURSIVE ChordSum(_, _)
ChordSum(s, n) == IF n <= 1 THEN 0 ELSE DistM(s[n], s[n - 1]) + ChordSum(s, n - 1)
Fin(s) == \A j \in 1..Len(s) : \A c \in 1..3 : Abs(s[j][c]) < 30000000
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

(* arc length parameters are interpolated from samples: an approximation *)
RECURSIVE HasAlp(_)
HasAlp(p) == \/ p.k = "alp"
             \/ p.k \in {"sub", "rev", "off"} /\ HasAlp(p.u)
             \/ p.k = "mean" /\ (HasAlp(p.a) \/ HasAlp(p.b))
PtBad(e) ==
  LET v == Pt(e.p, Q2(e.t)) IN
  IF v[4] = 0 THEN {"?"} ELSE IF NearV(e.g, v, IF HasAlp(e.p) THEN 600 ELSE Tol) THEN {} ELSE {"point"}

LenBad(e) ==
  LET q == PLen(e.p) IN
  IF q[2] = 0 THEN {"?"} ELSE IF Near(e.g, q, 60) THEN {} ELSE {"length"}

(* an arc: on its circle, in its plane, constant speed, right length *)
ArcBad(e) ==
  LET R == Micro(Q2(e.p.R)) \div 1000
      cM == <<Micro(VX(V(e.p.c))), Micro(VY(V(e.p.c))), Micro(VZ(V(e.p.c)))>>
      s == e.s
      nrm == VCross(V(e.p.e1), V(e.p.e2))
      ch == {DistM(s[j], s[j + 1]) : j \in 1..(Len(s) - 1)}
      off(j) == LET w == <<Milli(s[j][1] - cM[1]), Milli(s[j][2] - cM[2]), Milli(s[j][3] - cM[3])>> IN
                Abs(w[1] * nrm[1] + w[2] * nrm[2] + w[3] * nrm[3]) \div nrm[4]
  IN IF ~Fin(s) THEN {"raised"}
     ELSE (IF \A j \in 1..Len(s) : Abs(DistM(s[j], cM) - R) <= 3 THEN {} ELSE {"circle"})
     \cup (IF \A j \in 1..Len(s) : off(j) <= 4 THEN {} ELSE {"plane"})
     \cup (IF MaxOf(ch) - MinOf(ch) <= 4 THEN {} ELSE {"speed"})
     \cup (IF NearI(e.len, (AngMicro(e.p.cs) * e.p.m * e.p.R[1]) \div e.p.R[2], 60) THEN {} ELSE {"length"})

(* a sampled curve: chord <= length <= control polygon, and the sum of       *)
(* sampled chords agrees with the reported length                            *)
CurveBad(e) ==
  IF ~Fin(e.s) \/ Abs(e.len) > 60000000 THEN {"raised"}
  ELSE LET L == Milli(e.len)
           c == ChordSum(e.s, Len(e.s))
           n == Len(e.s)
       IN (IF L + 3 >= DistM(e.s[1], e.s[n]) THEN {} ELSE {"shorter than chord"})
     \cup (IF Abs(L - c) <= 2 * n + (c * 2) \div 100 THEN {} ELSE {"length"})

(* by arc length: equal parameter steps are equally long chords, and the     *)
(* end points and the overall length are those of the underlying path        *)
AlpBad(e) ==
  IF ~Fin(e.s) \/ ~Fin(e.u) THEN {"raised"}
  ELSE LET n == Len(e.s)
           m == Len(e.u)
           ch == [j \in 1..(n - 1) |-> DistM(e.s[j], e.s[j + 1])]
           mean == ChordSum(e.u, m) \div (n - 1)
       IN (IF \A j \in 1..(n - 1) : /\ ch[j] <= 8 + (mean * 102) \div 100
                                    /\ ch[j] >= (mean * 65) \div 100 - 4 THEN {} ELSE {"spacing"})
     \cup (IF NearP(e.s[1], e.u[1], Tol) /\ NearP(e.s[n], e.u[m], Tol) THEN {} ELSE {"ends"})
     \cup (IF \A j \in 1..n : \E l \in 1..m : DistM(e.s[j], e.u[l]) <= 6 + mean \div 2 THEN {} ELSE {"shape"})

(* quarter ellipse about a centre in the y-z plane *)
EllBad(e) ==
  IF ~Fin(e.s) THEN {"raised"}
  ELSE LET n == Len(e.s)
           a == e.a * 1000   \* milli
           b == e.b * 1000
           y(j) == Milli(e.s[j][2] - Micro(VY(V(e.c))))
           z(j) == Milli(e.s[j][3] - Micro(VZ(V(e.c))))
           x(j) == Milli(e.s[j][1] - Micro(VX(V(e.c))))
           \* (y/a)^2 + (z/b)^2 in 1/10000
           u(j) == (y(j) * 100) \div e.a
           w(j) == (z(j) * 100) \div e.b
           s == IF e.side = "bot" THEN 1 ELSE -1
       IN (IF \A j \in 1..n : Abs((u(j) \div 10) * (u(j) \div 10) + (w(j) \div 10) * (w(j) \div 10) - 100000000) <= 400000 THEN {} ELSE {"ellipse"})
     \cup (IF \A j \in 1..n : Abs(x(j)) <= 2 THEN {} ELSE {"plane"})
     \cup (IF \A j \in 1..n : y(j) >= -2 /\ s * z(j) >= -2 THEN {} ELSE {"quadrant"})
     \cup (IF \A j \in 1..(n - 1) : z(j) <= z(j + 1) + 1 THEN {} ELSE {"order"})
     \cup (IF e.side = "bot"
           THEN IF Abs(z(1)) <= 2 /\ Abs(y(n)) <= 2 /\ Abs(z(n) - b) <= 2 /\ Abs(y(1) - a) <= 2 THEN {} ELSE {"ends"}
           ELSE IF Abs(z(n)) <= 2 /\ Abs(y(1)) <= 2 /\ Abs(z(1) + b) <= 2 /\ Abs(y(n) - a) <= 2 THEN {} ELSE {"ends"})

(* leading edge patch at one position t along its line: a quarter ellipse of *)
(* the local width, square to the line, and the local thickness, run through *)
(* evenly                                                                    *)
LeBad(e) ==
  IF ~Fin(e.s) THEN {"raised"}
  ELSE LET t == QSub(Q2(e.t1), QMul(Q2(e.t), QSub(Q2(e.t1), Q2(e.t0))))
           base == Pt(e.line, t)
           n == Len(e.s)
           a == Milli(Micro(QAdd(Q2(e.w0), QMul(t, Q2(e.w1)))))
           b == Milli(Micro(QAbs(IF e.kind = "mean" THEN QSub(VZ(base), VZ(Pt(e.guide, t))) ELSE Q2(e.th))))
           px(j) == Milli(e.s[j][1] - Micro(VX(base)))
           py(j) == Milli(e.s[j][2] - Micro(VY(base)))
           z(j) == Milli(e.s[j][3] - Micro(VZ(base)))
           u(j) == (e.dir[1] * py(j) - e.dir[2] * px(j)) \div e.dir[3]
           v(j) == (e.dir[1] * px(j) + e.dir[2] * py(j)) \div e.dir[3]
           U(j) == (u(j) * 10000) \div a
           W(j) == (z(j) * 10000) \div b
           sg == IF e.side = "bot" THEN 1 ELSE -1
           ch == [j \in 1..(n - 1) |-> DistM(e.s[j], e.s[j + 1])]
           mean == ChordSum(e.s, n) \div (n - 1)
       IN IF base[4] = 0 THEN {"?"}
          ELSE (IF \A j \in 1..n : Abs(U(j) * U(j) + W(j) * W(j) - 100000000) <= 1500000 THEN {} ELSE {"ellipse"})
          \cup (IF \A j \in 1..n : Abs(v(j)) <= 5 THEN {} ELSE {"plane"})
          \cup (IF \A j \in 1..n : u(j) >= -4 /\ sg * z(j) >= -4 THEN {} ELSE {"quadrant"})
          \cup (IF \A j \in 1..(n - 1) : z(j) <= z(j + 1) + 1 THEN {} ELSE {"order"})
          \cup (IF \A j \in 1..(n - 1) : ch[j] <= 8 + (mean * 115) \div 100 /\ ch[j] >= (mean * 70) \div 100 - 4 THEN {} ELSE {"spacing"})
          \cup (LET f == IF e.side = "bot" THEN 1 ELSE n   \* where the edge is widest
                     g == IF e.side = "bot" THEN n ELSE 1
                IN IF Abs(z(f)) <= 4 /\ Abs(u(f) - a) <= 4 /\ Abs(u(g)) <= 4 /\ Abs(z(g) - sg * b) <= 4 THEN {} ELSE {"ends"})

(* disc in the x-y plane: the border on the circle, the rest inside, corners *)
(* on the diagonals and the middle at the centre                             *)
CircBad(e) ==
  LET cM == <<Micro(VX(V(e.c))), Micro(VY(V(e.c))), 0>>
      R == e.R * 1000
      d == DistM(e.g, cM)
      end(q) == q[1] = 0 \/ q[1] = q[2]
      sg(q) == IF q[1] = 0 THEN -1 ELSE 1
      w == e.R * 707107
  IN IF ~Fin(<<e.g>>) THEN {"raised"}
     ELSE (IF Abs(e.g[3]) <= Tol THEN {} ELSE {"plane"})
     \cup (IF end(e.r) \/ end(e.t) THEN IF Abs(d - R) <= 3 THEN {} ELSE {"circle"} ELSE IF d <= R THEN {} ELSE {"circle"})
     \cup (IF end(e.r) /\ end(e.t) /\ ~(Abs(e.g[1] - cM[1] - sg(e.r) * w) <= 20 /\ Abs(e.g[2] - cM[2] - sg(e.t) * w) <= 20) THEN {"corner"} ELSE {})
     \cup (IF e.r = <<1, 2>> /\ e.t = <<1, 2>> /\ d > 2 THEN {"centre"} ELSE {})

SpBad(e) ==
  LET v == Sf(e.s, Q2(e.r), Q2(e.t)) IN
  IF v[4] = 0 THEN {"?"} ELSE IF NearV(e.g, v, Tol) THEN {} ELSE {"point"}

(* sphere: the cube face point (x,y,z) goes to squares                       *)
(* x^2 (1 - y^2/2 - z^2/2 + y^2 z^2/3) ..., same signs                       *)
SphBad(e) ==
  LET f == Face(e.face, Q2(e.r), Q2(e.t))
      sq(q) == QMul(q, q)
      x2 == sq(VX(f))
      y2 == sq(VY(f))
      z2 == sq(VZ(f))
      g(a, b) == QAdd(QSub(QOne, QMul(QN(1, 2), QAdd(a, b))), QMul(QN(1, 3), QMul(a, b)))
      want == <<QMul(x2, g(y2, z2)), QMul(y2, g(x2, z2)), QMul(z2, g(x2, y2))>>
      cc == <<VX(V(e.c)), VY(V(e.c)), VZ(V(e.c))>>
      fs == <<f[1], f[2], f[3]>>
      o(c) == ((e.g[c] - Micro(cc[c])) \div e.R) \div 100   \* 1e-4 units of the radius
      w(c) == Micro(want[c]) * 100
  IN IF \E c \in 1..3 : e.g[c] = NaNObs THEN {"raised"}
     ELSE IF \E c \in 1..3 : want[c][2] = 0 THEN {"?"}
     ELSE IF \A c \in 1..3 : /\ Abs(o(c) * o(c) - w(c)) <= 40000
                             /\ (fs[c] > 0 => o(c) > -3) /\ (fs[c] < 0 => o(c) < 3)
          THEN {} ELSE {"sphere"}

(* construction with open corners is refused, with closed corners accepted *)
CornerBad(e) == IF e.refused = e.open THEN {} ELSE {IF e.open THEN "open corner accepted" ELSE "closed corner refused"}
RefBad(e) == IF e.refused THEN {} ELSE {"accepted"}

(* structured grid: vertex (i,j) is the patch at the blended parameters *)
ClV(cf, x) == IF cf = "sq" THEN QMul(x, x) ELSE IF cf = "rsq" THEN QSub(QOne, QMul(QSub(QOne, x), QSub(QOne, x))) ELSE x
GridBad(e) ==
  LET r == QN(e.i, e.ni - 1)
      t == QN(e.j, e.nj - 1)
      sd == QAdd(QMul(QSub(QOne, r), ClV(e.cf[4], t)), QMul(r, ClV(e.cf[2], t)))
      rd == QAdd(QMul(QSub(QOne, t), ClV(e.cf[3], r)), QMul(t, ClV(e.cf[1], r)))
      v == Sf(e.s, rd, sd)
  IN IF v[4] = 0 THEN {"?"} ELSE IF NearV(e.g, v, Tol) THEN {} ELSE {"grid point"}

Bad(e) ==
  CASE e.op = "pt" -> PtBad(e)
    [] e.op = "len" -> LenBad(e)
    [] e.op = "many" -> IF e.g = e.n THEN {} ELSE {"segments"}
    [] e.op = "arc" -> ArcBad(e)
    [] e.op = "curve" -> CurveBad(e)
    [] e.op = "alp" -> AlpBad(e)
    [] e.op = "ell" -> EllBad(e)
    [] e.op = "le" -> LeBad(e)
    [] e.op = "circ" -> CircBad(e)
    [] e.op = "sp" -> SpBad(e)
    [] e.op = "sph" -> SphBad(e)
    [] e.op = "corner" -> CornerBad(e)
    [] e.op = "refuse" -> RefBad(e)
    [] e.op = "grid" -> GridBad(e)
    [] e.op = "lost" -> {"driver"}

Init == h \in 1..NH /\ i = 1
Next == /\ i <= Len(Hist[h].ev)
        /\ Report(h, i, Bad(Hist[h].ev[i]))
        /\ i' = i + 1
        /\ h' = h
Spec == Init /\ [][Next]_<<h, i>>
=============================================================================
