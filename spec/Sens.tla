-------------------------------- MODULE Sens --------------------------------
(* Sensitivity studies (P16, P17).  A generator has three numbers a, b, c    *)
(* with defaults; the vehicle it makes has sheets (one patch with four       *)
(* corners) and boxes whose positions are forms in these numbers: a base     *)
(* point, a direction per number and a direction for the product of the      *)
(* first two.  Everything is moved by one more form.  Sensitivities are      *)
(* differences between two vehicles of the generator.                        *)
EXTENDS Geo, TLC
M == INSTANCE Mass
Num == 1..3

(* value of a form with the numbers env *)
FV(f, env) ==
  VAdd(V(f.b), VAdd(VAdd(VScale(V(f.d[1]), env[1]), VScale(V(f.d[2]), env[2])),
       VAdd(VScale(V(f.d[3]), env[3]), VScale(V(f.q), QMul(env[1], env[2])))))
(* scalar form <<base, da, db, dc, dab>> *)
FS(f, env) ==
  QAdd(QI(f[1]), QAdd(QAdd(QMul(QI(f[2]), env[1]), QMul(QI(f[3]), env[2])),
       QAdd(QMul(QI(f[4]), env[3]), QMul(QI(f[5]), QMul(env[1], env[2])))))

(* where the vertices of a component are, by name <<u, v>> or <<u, v, w>> *)
SheetKeys(n) == {<<QN(i, n), QN(j, n)>> : i, j \in 0..n} \cup {<<QN(2 * i + 1, 2 * n), QN(2 * j + 1, 2 * n)>> : i, j \in 0..(n - 1)}
BoxKeys(n) == UNION {{<<z, k[1], k[2]>>, <<k[1], z, k[2]>>, <<k[1], k[2], z>>} : k \in SheetKeys(n), z \in {QZero, QOne}}
Keys(c) == IF c.k = "sheet" THEN SheetKeys(c.n) ELSE BoxKeys(c.n)
Mul3(v, k) == VQ(QMul(VX(v), k[1]), QMul(VY(v), k[2]), QMul(VZ(v), k[3]))
(* bilinear patches: the mean of the corners of a cell is the value at its middle *)
Pos(c, env) ==
  TLCEval(IF c.k = "sheet"
  THEN LET p == TLCEval([j \in 1..4 |-> FV(c.p[j], env)]) IN
       [k \in Keys(c) |-> VLerp(VLerp(p[1], p[2], k[1]), VLerp(p[4], p[3], k[1]), k[2])]
  ELSE LET lo == FV(c.p[1], env) sz == FV(c.p[2], env) IN [k \in Keys(c) |-> VAdd(lo, Mul3(sz, k))])
Place(tpl, j, env) == LET w == FV(tpl.mv, env) P == Pos(tpl.comps[j], env) IN TLCEval([k \in DOMAIN P |-> VAdd(P[k], w)])

(* the numbers of an instance: defaults, overridden, then the parameters *)
Put(env, ps) == TLCEval([k \in Num |-> IF \E j \in 1..Len(ps) : ps[j][1] = k THEN Q2(ps[CHOOSE j \in 1..Len(ps) : ps[j][1] = k][2]) ELSE env[k]])
Nominal(tpl, e) == Put(Put([k \in Num |-> Q2(tpl.def[k])], e.ovr), e.par)
(* change of the parameter: per cent of its value, or of one when it is zero *)
Dp(e, j) == LET v == Q2(e.par[j][2]) w == QDiv(Q2(e.pert), QI(100)) IN IF v = QZero THEN w ELSE QMul(v, w)
Shifted(tpl, e, j) == LET n == Nominal(tpl, e) k == e.par[j][1] IN [n EXCEPT ![k] = QAdd(@, Dp(e, j))]

(* sensitivities of component c to parameter j: <<position, difference>> by vertex name *)
VSens(tpl, e, c, j) ==
  LET A == Place(tpl, c, Nominal(tpl, e)) B == Place(tpl, c, Shifted(tpl, e, j)) IN
  TLCEval([k \in DOMAIN A |-> VSub(B[k], A[k])])
Over(v, q) == VScale(v, QInv(q))
PSens(tpl, e, m, j) == QDiv(QSub(FS(tpl.props[m], Shifted(tpl, e, j)), FS(tpl.props[m], Nominal(tpl, e))), Dp(e, j))

(* boxes on the quarter lattice, for mass properties *)
Quarter(q) == IF q[2] # 0 /\ 4 % q[2] = 0 THEN q[1] * (4 \div q[2]) ELSE 9999
LBox(tpl, c, env) ==
  LET w == FV(tpl.mv, env) lo == VAdd(FV(tpl.comps[c].p[1], env), w) hi == VAdd(lo, FV(tpl.comps[c].p[2], env)) IN
  << <<Quarter(VX(lo)), Quarter(VY(lo)), Quarter(VZ(lo))>>, <<Quarter(VX(hi)), Quarter(VY(hi)), Quarter(VZ(hi))>> >>
OnLattice(b) == \A c \in 1..3 : b[1][c] < 999 /\ b[2][c] < 999 /\ b[1][c] > -999 /\ b[1][c] < b[2][c]
Boxes(tpl, env) == [c \in 1..Len(tpl.comps) |-> <<LBox(tpl, c, env)>>]
(* volume, mass, cog, moi in length units *)
Flat(p) == <<QDiv(p.vol, QI(64)), QDiv(p.mass, QI(64))>> \o [k \in 1..3 |-> QDiv(p.cog[k], QI(4))] \o [k \in 1..9 |-> QDiv(p.moi[k], QI(1024))]
Scal(tpl, env) == Flat(M!VProps(Boxes(tpl, env), tpl.dens))
CScal(tpl, env, c) == LET p == M!CProps(<<LBox(tpl, c, env)>>, tpl.dens[c]) IN <<QDiv(p.vol, QI(64)), QDiv(p.mass, QI(64)), QDiv(p.area, QI(16))>>
Diff(a, b, d) == [k \in 1..Len(a) |-> QDiv(QSub(b[k], a[k]), d)]
SSens(tpl, e, j) == Diff(Scal(tpl, Nominal(tpl, e)), Scal(tpl, Shifted(tpl, e, j)), Dp(e, j))
CSens(tpl, e, c, j) == Diff(CScal(tpl, Nominal(tpl, e), c), CScal(tpl, Shifted(tpl, e, j), c), Dp(e, j))

(* a study remembers the last request *)
NoStudy == <<>>
Study(s, e) == <<[par |-> e.par, ovr |-> e.ovr, pert |-> e.pert]>>
Ready(s) == s # <<>>
=============================================================================
