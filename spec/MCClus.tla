------------------------------- MODULE MCClus -------------------------------
(* Facts about clustering functions at all points where they are rational.   *)
EXTENDS Cluster
CONSTANTS Bases, MaxM
VARIABLES f, n
Fs == {[k |-> "lin", e0 |-> 0, e1 |-> 0, b |-> 0, m |-> 1]}
      \cup {[k |-> "rob", e0 |-> a, e1 |-> c, b |-> b, m |-> m] : a \in {0, 1}, c \in {0, 1}, b \in Bases, m \in 1..MaxM}
Init == f \in Fs /\ n \in {k \in 1..(2 * MaxM) : Plain(f) \/ f.m % k = 0 \/ (f.e0 = 1 /\ f.e1 = 1 /\ k = 2 * f.m)}
Next == UNCHANGED <<f, n>>
P == Points(f, QZero, QOne, n)
Gap(k) == QSub(P[k + 1], P[k])
Swap == [f EXCEPT !.e0 = f.e1, !.e1 = f.e0]
Known == \A k \in 1..(n + 1) : P[k][2] # 0
Ends == P[1] = QZero /\ P[n + 1] = QOne
Increasing == \A k \in 1..n : QLt(P[k], P[k + 1])
Identity == Plain(f) => \A k \in 1..(n + 1) : P[k] = QN(k - 1, n)
Mirror == \A k \in 1..(n + 1) : QAdd(P[k], Points(Swap, QZero, QOne, n)[n + 2 - k]) = QOne
(* spacing grows away from the selected ends *)
Towards == ~Plain(f) => \A k \in 1..(n - 1) :
   /\ f.e0 = 1 /\ f.e1 = 0 => QLt(Gap(k), Gap(k + 1))
   /\ f.e0 = 0 /\ f.e1 = 1 => QLt(Gap(k + 1), Gap(k))
   /\ f.e0 = 1 /\ f.e1 = 1 /\ 2 * (k + 1) <= n => QLt(Gap(k), Gap(k + 1))
Limits == LET L == Points(f, QI(-2), QI(3), n) IN L[1] = QI(-2) /\ L[n + 1] = QI(3) /\ \A k \in 1..n : QLt(L[k], L[k + 1])
(* a grid blended from edge functions keeps corners and edges *)
Corners == \A x \in {QZero, QOne}, y \in {QZero, QOne, QN(1, 2)} :
   GridR(<<Swap, f, f, Swap>>, x, y) = x /\ GridS(<<f, Swap, Swap, f>>, y, x) = x
=============================================================================
