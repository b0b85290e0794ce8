------------------------------- MODULE Cluster -------------------------------
(* Clustering functions (P15).  A function is [k |-> "lin"] or               *)
(* [k |-> "rob", e0, e1, b, m]: Roberts' transform clustering to end 0 when  *)
(* e0 = 1 and to end 1 when e1 = 1, with (beta + 1)/(beta - 1) = b^m, so that *)
(* the values are rational at the points where the exponent is whole.        *)
(* b = 0 stands for beta < 1, no stretching.                                 *)
EXTENDS Rat
RECURSIVE IPow(_, _)
IPow(b, n) == IF n = 0 THEN 1 ELSE b * IPow(b, n - 1)
BPow(b, n) == IF n >= 0 THEN QI(IPow(b, n)) ELSE QN(1, IPow(b, -n))
Lambda(f) == IPow(f.b, f.m)
Beta(f) == QN(Lambda(f) + 1, Lambda(f) - 1)
Plain(f) == f.k = "lin" \/ f.b = 0 \/ (f.e0 = 0 /\ f.e1 = 0)
(* stretched towards 1: beta (L - 1)/(L + 1), L = lambda^x *)
One(f, L) == QMul(Beta(f), QDiv(QSub(L, QOne), QAdd(L, QOne)))
(* stretched towards both: ((beta + 1) L - beta + 1)/(2 (L + 1)), L = lambda^(2 x - 1) *)
Two(f, L) == QDiv(QAdd(QSub(QMul(QAdd(Beta(f), QOne), L), Beta(f)), QOne), QMul(QI(2), QAdd(L, QOne)))
(* the whole exponent of b at x, where there is one *)
Expo(f, x) == IF f.e0 = 1 /\ f.e1 = 1 THEN <<f.m * (2 * x[1] - x[2]), x[2]>> ELSE <<f.m * x[1], x[2]>>
IsExact(f, x) == Plain(f) \/ Expo(f, x)[1] % Expo(f, x)[2] = 0
Whole(e) == IF e[1] >= 0 THEN e[1] \div e[2] ELSE -((-e[1]) \div e[2])
Clus(f, x) ==
  IF Plain(f) THEN x
  ELSE IF ~IsExact(f, x) THEN QUnk
  ELSE IF f.e0 = 1 /\ f.e1 = 1 THEN Two(f, BPow(f.b, Whole(Expo(f, x))))
  ELSE IF f.e1 = 1 THEN One(f, BPow(f.b, Whole(Expo(f, x))))
  ELSE LET y == QSub(QOne, x) IN QSub(QOne, One(f, BPow(f.b, Whole(Expo(f, y)))))
(* n + 1 points from t1 to t2 *)
Points(f, t1, t2, n) == [k \in 1..(n + 1) |-> LET y == Clus(f, QN(k - 1, n)) IN IF y[2] = 0 THEN QUnk ELSE QAdd(QMul(QSub(QOne, y), t1), QMul(y, t2))]
(* the parameters of a structured grid: functions along north, east, south and west are blended *)
GridR(cf, x, y) == LET a == Clus(cf[3], x) b == Clus(cf[1], x) IN IF a[2] = 0 \/ b[2] = 0 THEN QUnk ELSE QAdd(QMul(QSub(QOne, y), a), QMul(y, b))
GridS(cf, x, y) == LET a == Clus(cf[4], y) b == Clus(cf[2], y) IN IF a[2] = 0 \/ b[2] = 0 THEN QUnk ELSE QAdd(QMul(QSub(QOne, x), a), QMul(x, b))
=============================================================================
