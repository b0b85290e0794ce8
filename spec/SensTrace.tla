------------------------------ MODULE SensTrace ------------------------------
(* Recorded sensitivity studies against Sens (P16).  tabs[j][c] are the rows *)
(* x y z dx dy dz magnitude sx sy sz for parameter j and component c,        *)
(* comb[c] the rows of the combined table, nom[c] the vertices of the        *)
(* nominal vehicle afterwards.                                               *)
EXTENDS Sens, TraceLib
VARIABLES h, i, tpl
M3(v) == <<Micro(VX(v)), Micro(VY(v)), Micro(VZ(v))>>
(* single precision coordinates, divided by the change *)
PTol == 12
STol(dp) == 30 + (14 * dp[2]) \div Abs(dp[1])
Eq(o, at, m, tol) == \A k \in 1..3 : NearI(o[at + k], m[k], tol)
(* expectations in millionths: by vertex name, position and per parameter difference and sensitivity *)
Expect(e, c) ==
  LET A == TLCEval(Place(tpl, c, Nominal(tpl, e)))
      D == TLCEval([j \in 1..Len(e.par) |-> VSens(tpl, e, c, j)])
  IN TLCEval([k \in DOMAIN A |-> [p |-> A[k], d |-> [j \in 1..Len(e.par) |-> D[j][k]], s |-> [j \in 1..Len(e.par) |-> Over(D[j][k], Dp(e, j))]]])
Unk(X) == \E k \in DOMAIN X : X[k].p[4] = 0 \/ \E j \in DOMAIN X[k].s : X[k].s[j][4] = 0
Micros(X) == TLCEval({[p |-> M3(X[k].p), d |-> [j \in DOMAIN X[k].d |-> M3(X[k].d[j])], s |-> [j \in DOMAIN X[k].s |-> M3(X[k].s[j])]] : k \in DOMAIN X})
Mag(o) == LET a == Abs(o[4]) b == Abs(o[5]) c == Abs(o[6]) IN o[7] >= Max2(a, Max2(b, c)) - 2 /\ o[7] <= a + b + c + 2
RowOk(o, x, j, tol) == Eq(o, 0, x.p, PTol) /\ Eq(o, 3, x.d[j], PTol) /\ Eq(o, 7, x.s[j], tol)
TabBad(T, X, j, tol) ==
  (IF \A r \in 1..Len(T) : \E x \in X : RowOk(T[r], x, j, tol) THEN {} ELSE {"wrong sensitivity"})
  \cup (IF \A x \in X : \E r \in 1..Len(T) : RowOk(T[r], x, j, tol) THEN {} ELSE {"vertex missing"})
  \cup (IF \A r \in 1..Len(T) : Mag(T[r]) THEN {} ELSE {"wrong magnitude"})
CombOk(o, x, e) == Eq(o, 0, x.p, PTol) /\ \A j \in 1..Len(e.par) : Eq(o, 3 * j, x.s[j], STol(Dp(e, j)))
CombBad(T, X, e) ==
  (IF \A r \in 1..Len(T) : \E x \in X : CombOk(T[r], x, e) THEN {} ELSE {"wrong combined row"})
  \cup (IF \A x \in X : \E r \in 1..Len(T) : Eq(T[r], 0, x.p, PTol) THEN {} ELSE {"vertex missing from combined table"})
NomBad(N, X) ==
  IF (\A r \in 1..Len(N) : \E x \in X : Eq(N[r], 0, x.p, PTol)) /\ (\A x \in X : \E r \in 1..Len(N) : Eq(N[r], 0, x.p, PTol)) THEN {} ELSE {"nominal vehicle perturbed"}
CompBad(e, c) ==
  LET E == Expect(e, c) IN
  IF Unk(E) THEN {"?"}
  ELSE LET X == Micros(E) IN
    UNION {TabBad(e.tabs[j][c], X, j, STol(Dp(e, j))) : j \in 1..Len(e.par)} \cup CombBad(e.comb[c], X, e) \cup NomBad(e.nom[c], X)
Big(q) == q[2] = 0 \/ Abs(q[1]) \div q[2] >= 900
ListOk(o, q, tol) == Len(o) = Len(q) /\ \A k \in 1..Len(q) : Big(q[k]) \/ Near(o[k], q[k], tol)
PropBad(e) ==
  IF Len(tpl.props) = 0 THEN {}
  ELSE IF \A j \in 1..Len(e.par) : ListOk(e.props[j], [m \in 1..Len(tpl.props) |-> PSens(tpl, e, m, j)], 20) THEN {} ELSE {"wrong property sensitivity"}
(* relative to the size of the moments *)
SclTol(dp) == 400 + (1500 * dp[2]) \div Abs(dp[1])
SclBad(e) ==
  IF tpl.dens = <<>> THEN {}
  ELSE (IF \A j \in 1..Len(e.par) : ListOk(e.scal[j], SSens(tpl, e, j), SclTol(Dp(e, j))) THEN {} ELSE {"wrong scalar sensitivity"})
  \cup (IF \A j \in 1..Len(e.par) : \A c \in 1..Len(tpl.comps) : ListOk(e.cscal[j][c], CSens(tpl, e, c, j), SclTol(Dp(e, j))) THEN {} ELSE {"wrong component scalar sensitivity"})
Bad(e) ==
  IF e.op = "lost" THEN {"lost"}
  ELSE IF e.op = "tpl" THEN {}
  ELSE IF e.err # "" THEN {"failed"}
  ELSE UNION {CompBad(e, c) : c \in 1..Len(tpl.comps)} \cup PropBad(e) \cup SclBad(e)
    \cup (IF e.kept THEN {} ELSE {"parameters changed"})
    \cup (IF e.files = IF e.stl = "no" THEN 0 ELSE Len(tpl.comps) THEN {} ELSE {"nominal files"})
Init == h \in 1..NH /\ i = 1 /\ tpl = <<>>
Next == /\ i <= Len(Hist[h].ev)
        /\ LET e == Hist[h].ev[i] IN Report(h, i, Bad(e)) /\ tpl' = IF e.op = "tpl" THEN e ELSE tpl
        /\ i' = i + 1
        /\ h' = h
=============================================================================
