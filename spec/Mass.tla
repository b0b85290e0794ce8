-------------------------------- MODULE Mass --------------------------------
(* Mass properties of vehicles made of boxes (P09).  Coordinates are integer *)
(* (quarters of the length unit).  A component is a sequence of boxes        *)
(* <<lo, hi>>, a vehicle a sequence of components with densities.            *)
EXTENDS Rat

Sz(b, c) == b[2][c] - b[1][c]
BVol(b) == Sz(b, 1) * Sz(b, 2) * Sz(b, 3)
BArea(b) == 2 * (Sz(b, 1) * Sz(b, 2) + Sz(b, 2) * Sz(b, 3) + Sz(b, 1) * Sz(b, 3))
(* square sums x1^2 + x1 x2 + x2^2, three times the mean square *)
Sq(b, c) == b[1][c] * b[1][c] + b[1][c] * b[2][c] + b[2][c] * b[2][c]
Tw(b, c) == b[1][c] + b[2][c]   \* twice the centre

(* Totals over boxes with densities, list of <<box, rho>>: volume, mass,     *)
(* area, S = 2 * first moment, J = 12 * inertia about the origin             *)
Nx(c) == (c % 3) + 1
RECURSIVE Tot(_, _)
ZeroTot == [vol |-> 0, mass |-> 0, area |-> 0, S |-> <<0, 0, 0>>, D |-> <<0, 0, 0>>, P |-> <<0, 0, 0>>]
Tot(L, k) ==
  IF k = 0 THEN ZeroTot
  ELSE LET r == Tot(L, k - 1)
           b == L[k][1]
           v == BVol(b)
           m == L[k][2] * v
       IN [vol |-> r.vol + v, mass |-> r.mass + m, area |-> r.area + BArea(b),
           S |-> [c \in 1..3 |-> SAdd(r.S[c], SMul(m, Tw(b, c)))],
           \* diagonal about axis c, and product of the other two axes
           D |-> [c \in 1..3 |-> SAdd(r.D[c], SMul(4 * m, Sq(b, Nx(c)) + Sq(b, Nx(Nx(c)))))],
           P |-> [c \in 1..3 |-> SAdd(r.P[c], SMul(-3 * m, Tw(b, Nx(c)) * Tw(b, Nx(Nx(c)))))]]
SQ(a, b) == QMul(QN(a, 1), QN(b, 1))
(* properties about the centre of gravity, in units of the lattice *)
Props(L) ==
  LET t == Tot(L, Len(L))
      M == QN(t.mass, 1)
      pr(a, b) == QDiv(QMul(QI(3), SQ(t.S[a], t.S[b])), M)
      diag(c) == QDiv(QSub(QN(t.D[c], 1), QAdd(pr(Nx(c), Nx(c)), pr(Nx(Nx(c)), Nx(Nx(c))))), QI(12))
      off(c) == QDiv(QAdd(QN(t.P[c], 1), pr(Nx(c), Nx(Nx(c)))), QI(12))
  IN [vol |-> QI(t.vol), mass |-> M, area |-> QI(t.area),
      cog |-> <<QDiv(QN(t.S[1], 2), M), QDiv(QN(t.S[2], 2), M), QDiv(QN(t.S[3], 2), M)>>,
      \* rows of the tensor
      moi |-> << diag(1), off(3), off(2), off(3), diag(2), off(1), off(2), off(1), diag(3) >>]

(* the boxes of the components comps with densities d *)
RECURSIVE Weighted(_, _, _)
Weighted(comps, d, k) ==
  IF k = 0 THEN <<>> ELSE Weighted(comps, d, k - 1) \o [j \in 1..Len(comps[k]) |-> <<comps[k][j], d[k]>>]
VProps(comps, d) == Props(Weighted(comps, d, Len(comps)))
CProps(comp, rho) == Props([j \in 1..Len(comp) |-> <<comp[j], rho>>])

---------------------------------------------------------------------------
(* Motions: <<"t", x, y, z>> translation, <<"r", axis, quarter turns>>       *)
Turn(p, ax) ==
  CASE ax = "x" -> <<p[1], -p[3], p[2]>>
    [] ax = "y" -> <<p[3], p[2], -p[1]>>
    [] ax = "z" -> <<-p[2], p[1], p[3]>>
RECURSIVE Turns(_, _, _)
Turns(p, ax, n) == IF n = 0 THEN p ELSE Turns(Turn(p, ax), ax, n - 1)
MPt(p, o) == IF o[1] = "t" THEN <<p[1] + o[2], p[2] + o[3], p[3] + o[4]>> ELSE Turns(p, o[2], o[3])
MBox(b, o) ==
  LET p == MPt(b[1], o)
      q == MPt(b[2], o)
  IN << <<Min2(p[1], q[1]), Min2(p[2], q[2]), Min2(p[3], q[3])>>, <<Max2(p[1], q[1]), Max2(p[2], q[2]), Max2(p[3], q[3])>> >>
MComp(c, o) == [j \in 1..Len(c) |-> MBox(c[j], o)]
RECURSIVE MAll(_, _)
MAll(c, ops) == IF ops = <<>> THEN c ELSE MAll(MComp(c, Head(ops)), Tail(ops))

---------------------------------------------------------------------------
(* A vehicle being analysed.  base: components with their own motions; vt:   *)
(* motions of the vehicle; cur: the components where they are, once          *)
(* generated; aog: densities for analysis on generation; res: what that      *)
(* analysis stored, as <<components, densities>>; last: what was analysed    *)
(* last.                                                                     *)
NewV == [base |-> <<>>, vt |-> <<>>, cur |-> <<>>, gen |-> FALSE, aog |-> <<>>, res |-> <<>>, last |-> <<>>]
AddC(s, c, ops) == [s EXCEPT !.base = Append(@, <<c, ops>>)]
AddVT(s, ops) == [s EXCEPT !.vt = @ \o ops]
AnalyseAfter(s, d) == [s EXCEPT !.aog = d]
Placed(s) == [k \in 1..Len(s.base) |-> MAll(MAll(s.base[k][1], s.base[k][2]), s.vt)]
Generate(s) ==
  LET c == Placed(s) IN
  [s EXCEPT !.cur = c, !.gen = TRUE, !.res = IF s.aog = <<>> THEN @ ELSE <<c, s.aog>>, !.last = IF s.aog = <<>> THEN @ ELSE <<c, s.aog>>]
Transform(s, ops) == [s EXCEPT !.cur = [k \in 1..Len(@) |-> MAll(@[k], ops)]]
Analyse(s, d) == LET t == IF s.gen THEN s ELSE Generate(s) IN [t EXCEPT !.last = <<t.cur, d>>]
=============================================================================
