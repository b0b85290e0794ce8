------------------------------- MODULE MCMass -------------------------------
(* Laws of mass properties, over all pairs of boxes on a small lattice, all  *)
(* cuts and all motions; and of the analysis requests on a vehicle.          *)
EXTENDS Mass, TLC
CONSTANTS Span, Dens, MaxStep
VARIABLES L, s, n
Pts == (0..Span) \X (0..Span) \X (0..1)
Boxes == {<<lo, hi>> \in Pts \X Pts : \A c \in 1..3 : lo[c] < hi[c]}
Moves == {<<"t", 1, -2, 3>>} \cup {<<"r", ax, k>> : ax \in {"x", "y", "z"}, k \in 1..3}
D2 == {<<a, b>> : a \in Dens, b \in Dens}
C1 == << << <<0, 0, 0>>, <<1, 2, 1>> >> >>
C2 == << << <<1, 0, 0>>, <<2, 1, 1>> >>, << <<0, 3, 0>>, <<1, 4, 2>> >> >>
Init == /\ L = <<>> /\ n = 0
        /\ s = AddC(AddC(NewV, C1, <<>>), C2, << <<"r", "z", 1>> >>)
Pair == /\ L = <<>> /\ n = 0
        /\ \E a \in Boxes, b \in Boxes, p \in Dens, q \in Dens : L' = << <<a, p>>, <<b, q>> >>
        /\ UNCHANGED <<s, n>>
Step == /\ L = <<>> /\ n < MaxStep /\ n' = n + 1 /\ L' = L
        /\ \/ s' = Generate(s)
           \/ \E o \in Moves : s' = AddVT(s, <<o>>)
           \/ s.gen /\ \E o \in Moves : s' = Transform(s, <<o>>)
           \/ \E d \in D2 : s' = Analyse(s, d)
           \/ \E d \in D2 : s' = AnalyseAfter(s, d)
Next == Pair \/ Step
Spec == Init /\ [][Next]_<<L, s, n>>

Cut(b) == {<< << b[1], [b[2] EXCEPT ![c] = b[1][c] + 1] >>, << [b[1] EXCEPT ![c] = b[1][c] + 1], b[2] >> >> : c \in {c \in 1..3 : Sz(b, c) > 1}}
NoArea(p) == <<p.vol, p.mass, p.cog, p.moi>>
Swap(q) == <<q[2], q[1]>>
MoveAll(q, o) == [k \in 1..Len(q) |-> <<MBox(q[k][1], o), q[k][2]>>]
QSum(a, b, c) == QAdd(QAdd(a, b), c)
(* composition by the parallel axis theorem, from each part's own properties *)
Shifted(p, g) ==
  LET r == [c \in 1..3 |-> QSub(p.cog[c], g[c])]
      rr == QSum(QMul(r[1], r[1]), QMul(r[2], r[2]), QMul(r[3], r[3]))
  IN [k \in 1..9 |-> LET a == ((k - 1) \div 3) + 1 b == ((k - 1) % 3) + 1 IN
       QAdd(p.moi[k], QMul(p.mass, QSub(IF a = b THEN rr ELSE QZero, QMul(r[a], r[b]))))]
Laws ==
  L # <<>> =>
  LET p == Props(L)
      a == Props(<<L[1]>>)
      b == Props(<<L[2]>>)
  IN /\ p = Props(Swap(L))
     /\ \A c \in Cut(L[1][1]) : NoArea(p) = NoArea(Props(<< <<c[1], L[1][2]>>, <<c[2], L[1][2]>>, L[2] >>))
     /\ p.mass = QAdd(a.mass, b.mass) /\ p.vol = QAdd(a.vol, b.vol) /\ p.area = QAdd(a.area, b.area)
     /\ \A c \in 1..3 : QMul(p.mass, p.cog[c]) = QAdd(QMul(a.mass, a.cog[c]), QMul(b.mass, b.cog[c]))
     /\ \A k \in 1..9 : p.moi[k] = QAdd(Shifted(a, p.cog)[k], Shifted(b, p.cog)[k])
     /\ \A c \in {1, 5, 9} : p.moi[c][1] > 0
     /\ \A o \in Moves :
          LET m == Props(MoveAll(L, o)) IN
          /\ m.mass = p.mass /\ m.vol = p.vol /\ m.area = p.area
          /\ QSum(m.moi[1], m.moi[5], m.moi[9]) = QSum(p.moi[1], p.moi[5], p.moi[9])
          /\ o[1] = "t" => m.moi = p.moi /\ \A c \in 1..3 : m.cog[c] = QAdd(p.cog[c], QI(o[c + 1]))
(* Whatever the history, mass and volume are those of the parts, generating  *)
(* starts afresh and analysis does not disturb the vehicle.                  *)
Kept ==
  L = <<>> =>
  /\ s.gen => \A d \in {<<1, 2>>} : LET p == VProps(s.cur, d) IN p.mass = VProps(<<C1, C2>>, d).mass /\ p.vol = VProps(<<C1, C2>>, d).vol
  /\ s.gen => Analyse(s, <<1, 2>>).cur = s.cur
  /\ Generate(Generate(s)) = Generate(s)
  /\ Analyse(s, <<1, 1>>).gen
  /\ ~s.gen => Analyse(s, <<1, 1>>).cur = Generate(s).cur
  /\ s.aog # <<>> => Generate(s).res = <<Analyse(Generate(s), s.aog).cur, s.aog>>
=============================================================================
