------------------------------- MODULE MCSens -------------------------------
(* Facts about finite differences of generators, for all requests of a small *)
(* set on a few generators, and for all short histories of studies.          *)
EXTENDS Sens
\* values v stand for (v - 3)/2, perturbations for what is left of 100 per cent
CONSTANTS Vals, Perts, Steps
VARIABLES t, s, last, n
vars == <<t, s, last, n>>
Z3 == <<0, 0, 0, 1>>
F(b, a, c, d, q) == [b |-> b, d |-> <<a, c, d>>, q |-> q]
Z == F(Z3, Z3, Z3, Z3, Z3)
X == <<1, 0, 0, 1>>
Y == <<0, 1, 0, 1>>
W == <<0, -1, 2, 1>>
Sheet(q) == [k |-> "sheet", n |-> 1, p |-> <<F(Z3, X, Z3, Z3, Z3), F(X, X, Y, Z3, q), F(<<1, 1, 0, 1>>, Z3, W, Z3, Z3), F(Y, Z3, Z3, Y, q)>>]
Box == [k |-> "box", n |-> 1, p |-> <<F(Z3, X, Y, Z3, Z3), F(<<2, 2, 2, 1>>, Y, Z3, <<0, 0, 1, 1>>, Z3)>>]
T(cs, d, mv) == [comps |-> cs, dens |-> d, props |-> <<<<1, 2, -1, 0, 1>>>>, mv |-> mv, def |-> <<<<1, 1>>, <<2, 1>>, <<1, 1>>>>]
Tpls == {T(<<Sheet(Z3)>>, <<>>, Z), T(<<Sheet(W), Box>>, <<>>, F(Z3, Z3, X, Z3, Z3)), T(<<Box>>, <<2>>, Z)}
Names == {<<1>>, <<3>>, <<1, 2>>, <<2, 1>>, <<3, 1, 2>>}
Reqs == UNION {{[par |-> [j \in 1..Len(p) |-> <<p[j], <<v[p[j]] - 3, 2>>>>], ovr |-> o, pert |-> <<q - 100, 1>>] : v \in [Num -> Vals], o \in {<<>>, <<<<3, <<1, 1>>>>>>}, q \in Perts} : p \in Names}
Legal(e) == \A j \in 1..Len(e.par), k \in 1..Len(e.ovr) : e.par[j][1] # e.ovr[k][1]
Init == t \in Tpls /\ s = NoStudy /\ last = <<>> /\ n = 0
Next == /\ n < Steps
        /\ \E e \in Reqs : Legal(e) /\ s' = Study(s, e) /\ last' = e
        /\ n' = n + 1 /\ t' = t
(* only the last request counts *)
Latest == s # NoStudy => s[1].par = last.par /\ s[1].ovr = last.ovr /\ s[1].pert = last.pert
S(e, c, j) == LET D == VSens(t, e, c, j) IN TLCEval([k \in DOMAIN D |-> Over(D[k], Dp(e, j))])
NoProduct(c) == \A m \in 1..Len(t.comps[c].p) : t.comps[c].p[m].q = Z3
(* without products the sensitivity does not depend on values, other parameters and the perturbation *)
Canon(k) == [par |-> <<<<k, <<1, 1>>>>>>, ovr |-> <<>>, pert |-> <<100, 1>>]
Linear == s # NoStudy => \A c \in 1..Len(t.comps) : NoProduct(c) => \A j \in 1..Len(last.par) : S(last, c, j) = S(Canon(last.par[j][1]), c, 1)
(* a parameter that is overridden instead is held at the same value *)
Held == s # NoStudy /\ Len(last.par) > 1 =>
   LET e == [last EXCEPT !.par = <<last.par[1]>>, !.ovr = Tail(last.par) \o @] IN
   \A c \in 1..Len(t.comps) : S(e, c, 1) = S(last, c, 1)
(* what does not use a parameter does not respond to it *)
Unused == s # NoStudy => \A c \in 1..Len(t.comps) : \A j \in 1..Len(last.par) :
   (\A m \in 1..Len(t.comps[c].p) : t.comps[c].p[m].d[last.par[j][1]] = Z3 /\ t.comps[c].p[m].q = Z3) /\ t.mv.d[last.par[j][1]] = Z3
      => \A k \in Keys(t.comps[c]) : S(last, c, j)[k] = VZero
NonZero == s # NoStudy => \A j \in 1..Len(last.par) : Dp(last, j)[1] # 0
(* mass follows density and volume *)
MassVol == s # NoStudy /\ t.dens # <<>> /\ OnLattice(LBox(t, 1, Nominal(t, last))) => \A j \in 1..Len(last.par) :
   OnLattice(LBox(t, 1, Shifted(t, last, j))) => LET q == SSens(t, last, j) IN q[2] = QMul(QI(t.dens[1]), q[1])
=============================================================================
