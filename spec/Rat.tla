-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic on TLC's 32 bit integers.                       *)
(* A rational is <<n, d>> with d > 0 and gcd(n,d) = 1; a point or vector is  *)
(* <<x, y, z, d>> with one common positive denominator.  Arithmetic is       *)
(* total: a result that does not fit becomes "unknown" (denominator 0), and  *)
(* unknown propagates, so an overflow can never turn into a wrong verdict.   *)
EXTENDS Integers, Sequences, FiniteSets

Lim == 1073741823
OVF == 2147483647

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b

SMul(a, b) ==
  IF a = OVF \/ b = OVF THEN OVF
  ELSE IF a = 0 \/ b = 0 THEN 0
  ELSE IF Abs(a) > Lim \div Abs(b) THEN OVF ELSE a * b

SAdd(a, b) ==
  IF a = OVF \/ b = OVF THEN OVF
  ELSE LET c == a + b IN IF Abs(c) > Lim THEN OVF ELSE c

SNeg(a) == IF a = OVF THEN OVF ELSE -a

RECURSIVE GcdP(_, _)
GcdP(a, b) == IF b = 0 THEN a ELSE GcdP(b, a % b)
Gcd(a, b) == GcdP(Abs(a), Abs(b))

---------------------------------------------------------------------------
(* rationals *)
QUnk == <<0, 0>>
QN(n, d) ==
  IF n = OVF \/ d = OVF \/ d = 0 THEN QUnk
  ELSE LET g == Gcd(n, d) IN
       IF d < 0 THEN <<(-n) \div g, (-d) \div g>> ELSE <<n \div g, d \div g>>
QI(n) == <<n, 1>>
QZero == <<0, 1>>
QOne == <<1, 1>>
QUnkP(a) == a[2] = 0
QAdd(a, b) ==
  IF a[2] = 0 \/ b[2] = 0 THEN QUnk
  ELSE LET g == Gcd(a[2], b[2]) IN
       QN(SAdd(SMul(a[1], b[2] \div g), SMul(b[1], a[2] \div g)),
          SMul(a[2] \div g, b[2]))
QNeg(a) == <<-a[1], a[2]>>
QSub(a, b) == QAdd(a, QNeg(b))
QMul(a, b) ==
  IF a[2] = 0 \/ b[2] = 0 THEN QUnk
  ELSE LET g1 == Max2(1, Gcd(a[1], b[2]))
           g2 == Max2(1, Gcd(b[1], a[2]))
       IN QN(SMul(a[1] \div g1, b[1] \div g2), SMul(a[2] \div g2, b[2] \div g1))
QInv(a) == IF a[1] = 0 \/ a[2] = 0 THEN QUnk ELSE QN(a[2], a[1])
QDiv(a, b) == QMul(a, QInv(b))
QLe(a, b) == QSub(a, b)[1] <= 0
QLt(a, b) == QSub(a, b)[1] < 0
QEq(a, b) == a = b
QAbs(a) == <<Abs(a[1]), a[2]>>
RECURSIVE QPow(_, _)
QPow(a, k) == IF k = 0 THEN QOne ELSE QMul(a, QPow(a, k - 1))
RECURSIVE QSumSeq(_)
QSumSeq(s) == IF Len(s) = 0 THEN QZero ELSE QAdd(s[1], QSumSeq(Tail(s)))

(* integer square root by bisection; exact rational square root or unknown *)
RECURSIVE ISqrtB(_, _, _)
ISqrtB(n, lo, hi) ==  \* invariant lo^2 <= n < hi^2
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN
       IF m * m <= n THEN ISqrtB(n, m, hi) ELSE ISqrtB(n, lo, m)
ISqrt(n) == IF n <= 0 THEN 0 ELSE ISqrtB(n, 0, Min2(n, 46339) + 1)
QSqrt(a) ==
  IF a[2] = 0 \/ a[1] < 0 THEN QUnk
  ELSE LET n == ISqrt(a[1])
           d == ISqrt(a[2])
       IN IF n * n = a[1] /\ d * d = a[2] THEN <<n, d>> ELSE QUnk

---------------------------------------------------------------------------
(* points and vectors *)
VUnk == <<0, 0, 0, 0>>
VZero == <<0, 0, 0, 1>>
VN(x, y, z, d) ==
  IF x = OVF \/ y = OVF \/ z = OVF \/ d = OVF \/ d = 0 THEN VUnk
  ELSE LET g == Gcd(Gcd(x, y), Gcd(z, d)) IN
       IF g = 1 THEN <<x, y, z, d>>
       ELSE <<x \div g, y \div g, z \div g, d \div g>>
V(v) == VN(v[1], v[2], v[3], v[4])
VAdd(a, b) ==
  IF a[4] = 0 \/ b[4] = 0 THEN VUnk
  ELSE LET g == Gcd(a[4], b[4])
           fa == b[4] \div g
           fb == a[4] \div g
       IN VN(SAdd(SMul(a[1], fa), SMul(b[1], fb)),
             SAdd(SMul(a[2], fa), SMul(b[2], fb)),
             SAdd(SMul(a[3], fa), SMul(b[3], fb)),
             SMul(a[4], fa))
VNeg(a) == <<-a[1], -a[2], -a[3], a[4]>>
VSub(a, b) == VAdd(a, VNeg(b))
VScale(a, q) ==
  IF a[4] = 0 \/ q[2] = 0 THEN VUnk
  ELSE VN(SMul(a[1], q[1]), SMul(a[2], q[1]), SMul(a[3], q[1]), SMul(a[4], q[2]))
VLerp(a, b, t) == VAdd(VScale(a, QSub(QOne, t)), VScale(b, t))
VX(v) == QN(v[1], v[4])
VY(v) == QN(v[2], v[4])
VZ(v) == QN(v[3], v[4])
VQ(x, y, z) ==  \* vector from three rationals
  VAdd(VAdd(VScale(<<1, 0, 0, 1>>, x), VScale(<<0, 1, 0, 1>>, y)), VScale(<<0, 0, 1, 1>>, z))
VDot(a, b) ==
  IF a[4] = 0 \/ b[4] = 0 THEN QUnk
  ELSE QN(SAdd(SAdd(SMul(a[1], b[1]), SMul(a[2], b[2])), SMul(a[3], b[3])), SMul(a[4], b[4]))
VCross(a, b) ==
  IF a[4] = 0 \/ b[4] = 0 THEN VUnk
  ELSE VN(SAdd(SMul(a[2], b[3]), SNeg(SMul(a[3], b[2]))),
          SAdd(SMul(a[3], b[1]), SNeg(SMul(a[1], b[3]))),
          SAdd(SMul(a[1], b[2]), SNeg(SMul(a[2], b[1]))),
          SMul(a[4], b[4]))
VNorm(a) == QSqrt(VDot(a, a))
RECURSIVE VSumSeq(_)
VSumSeq(s) == IF Len(s) = 0 THEN VZero ELSE VAdd(s[1], VSumSeq(Tail(s)))

---------------------------------------------------------------------------
(* Observed floating point numbers are logged as integers: the value in     *)
(* millionths, or the sentinel NaNObs when it is not a finite number of     *)
(* moderate size (or the call raised).                                      *)
NaNObs == 2000000000

RECURSIVE Shrink(_, _)
Shrink(n, d) == IF d <= 2000000 THEN <<n, d>> ELSE Shrink(n \div 2, d \div 2)
Micro(q) ==
  LET s == Shrink(q[1], q[2])
      n == s[1]
      d == s[2]
      w == n \div d
      r == n % d
      a == (r * 1000) \div d
      b == (((r * 1000) % d) * 1000) \div d
  IN w * 1000000 + a * 1000 + b

Near(obs, q, tol) ==  \* unknown expectation decides nothing
  \/ q[2] = 0
  \/ /\ obs # NaNObs
     /\ Abs(q[1]) \div q[2] < 1000
     /\ Abs(obs) < 1000000000
     /\ Abs(obs - Micro(q)) <= tol
NearV(o, v, tol) ==
  \/ v[4] = 0
  \/ /\ Near(o[1], VX(v), tol)
     /\ Near(o[2], VY(v), tol)
     /\ Near(o[3], VZ(v), tol)
NearI(a, b, tol) == a # NaNObs /\ b # NaNObs /\ Abs(a) < 1000000000 /\ Abs(b) < 1000000000 /\ Abs(a - b) <= tol
NearP(a, b, tol) == NearI(a[1], b[1], tol) /\ NearI(a[2], b[2], tol) /\ NearI(a[3], b[3], tol)
=============================================================================
