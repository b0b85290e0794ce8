------------------------------- MODULE MCGeo -------------------------------
(* Model checking of the geometry semantics: terms are built step by step    *)
(* (a base path or patch, then wrapped by the constructors) and the laws a   *)
(* user relies on are invariants of every term reached.                      *)
EXTENDS Geo, TLC
CONSTANT Depth

VARIABLES kind, path, surf, d

P1 == <<0, 0, 0, 1>>
P2 == <<4, 3, 0, 1>>
P3 == <<4, 3, 12, 1>>
P4 == <<1, -2, 2, 1>>
T == {<<0, 1>>, <<1, 1>>, <<1, 2>>, <<1, 4>>, <<2, 3>>}
Zero == [m |-> <<<<0, 0, 0, 0>>, <<0, 0, 0, 0>>, <<0, 0, 0, 0>>>>, d |-> 1, q |-> 0]
Shift == [m |-> <<<<0, 0, 0, 2>>, <<0, 0, 0, -1>>, <<0, 0, 0, 3>>>>, d |-> 2, q |-> 0]
Shear == [m |-> <<<<0, 1, 0, 0>>, <<0, 0, 0, 1>>, <<1, 0, 0, 0>>>>, d |-> 2, q |-> 1]
Ln(a, b) == [k |-> "line", p0 |-> a, p1 |-> b]

BasePaths ==
  { Ln(P1, P2), Ln(P4, P1),
    [k |-> "bez", B |-> <<P1, P4, P3>>], [k |-> "bez", B |-> <<P4, P2, P1, P3>>],
    [k |-> "poly", closed |-> FALSE, segs |-> <<Ln(P1, P2), Ln(P2, P3)>>],
    [k |-> "poly", closed |-> TRUE, segs |-> <<Ln(P1, P2), Ln(P2, P3)>>],
    [k |-> "poly", closed |-> FALSE, segs |-> <<Ln(P4, P1), Ln(P1, P2), Ln(P2, P3)>>] }
WrapPath(p) ==
  { [k |-> "rev", u |-> p],
    [k |-> "sub", u |-> p, t0 |-> <<1, 4>>, t1 |-> <<1, 1>>],
    [k |-> "sub", u |-> p, t0 |-> <<1, 1>>, t1 |-> <<1, 2>>],
    [k |-> "off", u |-> p, f |-> Shift], [k |-> "off", u |-> p, f |-> Shear],
    [k |-> "mean", a |-> p, b |-> Ln(P4, P3)] }

Nrth == [k |-> "bez", B |-> <<P4, <<0, 2, 5, 1>>, P3>>]
BaseSurfs ==
  { [k |-> "coons", s |-> Ln(P1, P2), n |-> Nrth, w |-> Ln(P1, P4), e |-> [k |-> "bez", B |-> <<P2, P1, P3>>], o |-> <<0, 0, 0, 1>>],
    [k |-> "coonsc", p00 |-> P1, p10 |-> P2, p11 |-> P3, p01 |-> P4, o |-> <<1, 1, 0, 1>>],
    [k |-> "swe", edges |-> <<Ln(P1, P2), Nrth, Ln(P3, P4)>>],
    [k |-> "cube", a |-> <<3, 2>>, c |-> P4, face |-> "north"],
    [k |-> "rvl", line |-> Ln(P2, P4), cs |-> <<0, 1, 1>>, m0 |-> 0, m1 |-> 12] }
WrapSurf(s) ==
  { [k |-> "rot", u |-> s, ax |-> a, cs |-> c, pt |-> p] :
      a \in {"x", "y", "z"}, c \in {<<0, 1, 1>>, <<4, 3, 5>>}, p \in {P1, P4} }
  \cup { [k |-> "mir", u |-> s, ax |-> a] : a \in {"x", "y", "z"} }
  \cup { [k |-> "off", u |-> s, f |-> f] : f \in {Shift, Shear} }
  \cup { [k |-> "curv", u |-> s, dir |-> a, f |-> Shear, x0 |-> 50, sl1 |-> <<3, 4, 5>>, sl2 |-> <<0, 1, 1>>] : a \in {"x", "y"} }

ASurf == CHOOSE s \in BaseSurfs : s.k = "coonsc"
Init == /\ d = 0
        /\ \/ kind = "path" /\ path \in BasePaths /\ surf = ASurf
           \/ kind = "surf" /\ surf \in BaseSurfs /\ path = Ln(P1, P2)
Next == /\ d < Depth
        /\ d' = d + 1
        /\ IF kind = "path" THEN path' \in WrapPath(path) /\ UNCHANGED surf
           ELSE surf' \in WrapSurf(surf) /\ UNCHANGED path
        /\ UNCHANGED kind

Known(v) == v[4] # 0
EqK(a, b) == ~Known(a) \/ ~Known(b) \/ a = b
QEqK(a, b) == a[2] = 0 \/ b[2] = 0 \/ a = b

(* P12 on the model *)
ReverseLaw == kind = "path" => \A t \in T : /\ EqK(Pt([k |-> "rev", u |-> [k |-> "rev", u |-> path]], t), Pt(path, t))
                           /\ EqK(Pt([k |-> "sub", u |-> path, t0 |-> <<1, 1>>, t1 |-> <<0, 1>>], t),
                                  Pt([k |-> "rev", u |-> path], t))
SubRangeLaw == kind = "path" => \A a \in T, b \in T, t \in T :
  EqK(Pt([k |-> "sub", u |-> path, t0 |-> a, t1 |-> b], t), Pt(path, QAdd(a, QMul(t, QSub(b, a)))))
MeanLaw == kind = "path" => \A t \in T : EqK(Pt([k |-> "mean", a |-> path, b |-> path], t), Pt(path, t))
OffsetLaw == kind = "path" => \A t \in T : EqK(Pt([k |-> "off", u |-> path, f |-> Zero], t), Pt(path, t))
(* polylines meet all their corners and close *)
PolyLaw == path.k = "poly" =>
  LET s == PolySegs(path)
      L == [j \in 1..Len(s) |-> PLen(s[j])]
      tot == QSumSeq(L)
      corner(j) == QDiv(QSumSeq(SubSeq(L, 1, j)), tot)
  IN /\ Pt(path, QZero) = Pt(s[1], QZero)
     /\ \A j \in 1..Len(s) : Pt(path, corner(j)) = Pt(s[j], QOne)
     /\ path.closed => Pt(path, QOne) = Pt(path, QZero)
     /\ PLen(path) = tot
(* P13 on the model *)
CoonsLaw == surf.k = "coons" => \A t \in T :
  /\ Sf(surf, t, QZero) = Pt(surf.s, t) /\ Sf(surf, t, QOne) = Pt(surf.n, t)
  /\ Sf(surf, QZero, t) = Pt(surf.w, t) /\ Sf(surf, QOne, t) = Pt(surf.e, t)
SweptLaw == surf.k = "swe" => \A t \in T, j \in 1..Len(surf.edges) :
  Sf(surf, QN(j - 1, Len(surf.edges) - 1), t) = Pt(surf.edges[j], t)
RotLaw == kind = "surf" => \A a \in {"x", "y", "z"}, t \in T :
  /\ EqK(Sf([k |-> "rot", ax |-> a, cs |-> <<4, -3, 5>>, pt |-> P4,
             u |-> [k |-> "rot", u |-> surf, ax |-> a, cs |-> <<4, 3, 5>>, pt |-> P4]], t, <<1, 3>>), Sf(surf, t, <<1, 3>>))
  /\ EqK(Sf([k |-> "mir", ax |-> a, u |-> [k |-> "mir", u |-> surf, ax |-> a]], t, <<1, 3>>), Sf(surf, t, <<1, 3>>))
(* rotations and reflections are isometries *)
Sq(s, t) == LET v == VSub(Sf(s, t, <<1, 3>>), Sf(s, QOne, QZero)) IN VDot(v, v)
IsoLaw == kind = "surf" => \A t \in T :
  /\ QEqK(Sq([k |-> "rot", u |-> surf, ax |-> "y", cs |-> <<4, 3, 5>>, pt |-> P4], t), Sq(surf, t))
  /\ QEqK(Sq([k |-> "mir", u |-> surf, ax |-> "y"], t), Sq(surf, t))
FlatLaw == kind = "surf" => \A t \in T : EqK(Sf([k |-> "curv", u |-> surf, dir |-> "x", f |-> Zero, x0 |-> 1, sl1 |-> <<0, 1, 1>>, sl2 |-> <<0, 1, 1>>], t, t), Sf(surf, t, t))
PerimeterLaw == kind = "surf" => \A t \in T :
  /\ EqK(Pt([k |-> "per", u |-> surf], QMul(t, <<1, 4>>)), Sf(surf, t, QZero))
  /\ EqK(Pt([k |-> "per", u |-> surf], QOne), Sf(surf, QZero, QZero))
=============================================================================
