-------------------------------- MODULE MCVec --------------------------------
(* All short histories over a few values: vectors keep value semantics and   *)
(* the frames are right handed and orthonormal.                              *)
EXTENDS Vec, TLC
CONSTANTS Depth
VARIABLES s, n, last
vars == <<s, n, last>>
Vals == {<<1, 0, 0, 1>>, <<3, 4, 0, 1>>, <<1, -2, 2, 1>>}
Qs == {<<2, 1>>, <<-1, 2>>}
Ops ==
  {[op |-> "new", r |-> r, v |-> v] : r \in Regs, v \in Vals}
  \cup LET H == {r \in Regs : Has(s, r)} F == {r \in Regs : Free(s, r)} IN
  {[op |-> o, r |-> r, a |-> a] : o \in {"copy", "alias", "neg", "unit"}, r \in Regs, a \in H}
  \cup {[op |-> o, r |-> r, a |-> a, b |-> b] : o \in {"add", "sub", "cross"}, r \in Regs, a \in H, b \in H}
  \cup {[op |-> o, r |-> r, a |-> a, q |-> q] : o \in {"mul", "div"}, r \in Regs, a \in H, q \in Qs}
  \cup {[op |-> o, r |-> r, q |-> q] : o \in {"imul", "idiv"}, r \in F, q \in Qs}
  \cup {[op |-> o, r |-> r, f |-> f, c |-> c] : o \in {"global", "local"}, r \in F, f \in {2, 4}, c \in {0} \cup H}
  \cup {[op |-> "build", kind |-> "line", src |-> <<a, b>>] : a \in H, b \in H}
  \cup {[op |-> "eval", n |-> k, t |-> <<1, 2>>, u |-> <<0, 1>>, r |-> r] : k \in 1..Len(s.terms), r \in Regs}
InPlace == {"imul", "idiv", "global", "local", "normalize"}
Init == s = S0 /\ n = 0 /\ last = [op |-> "none"]
Next == /\ n < Depth
        /\ \E e \in Ops : s' = Step(s, e) /\ last' = e
        /\ n' = n + 1
(* an operation that is not in place changes no existing object *)
Frame == [][\A k \in 1..Len(s.heap) : s'.heap[k] # s.heap[k] => last'.op \in InPlace /\ k = s.reg[last'.r] /\ k \notin s.held]_vars
(* held objects never change *)
HeldSame == [][\A k \in s.held : s'.heap[k] = s.heap[k]]_vars
(* a path's term is fixed when it is built *)
TermsSame == [][\A k \in 1..Len(s.terms) : s'.terms[k] = s.terms[k]]_vars
(* a name refers to another object only when the operation assigns it *)
Names == [][\A r \in Regs : s'.reg[r] # s.reg[r] => last'.r = r /\ last'.op \notin InPlace]_vars
Exact == {k \in 1..Len(s.heap) : s.heap[k][4] # 0}
RoundTrip == \A k \in Exact \cap {Len(s.heap)} : \A f \in 1..Len(Frames) : \A c \in {<<1, -2, 2, 1>>} :
   /\ ToLocal(ToGlobal(s.heap[k], f, c), f, c) = s.heap[k]
   /\ ToGlobal(ToLocal(s.heap[k], f, c), f, c) = s.heap[k]
FramesOrtho == n = 0 => \A f \in 1..Len(Frames) : LET F == Frames[f] IN
   /\ \A a, b \in 1..3 : VDot(F[a], F[b]) = IF a = b THEN QOne ELSE QZero
   /\ \E g \in {1, -1} : VCross(F[1], F[2]) = VScale(F[3], QI(g))
Algebra == \A j \in Exact, k \in Exact \cap {Len(s.heap)} : LET a == s.heap[j] b == s.heap[k] IN
   /\ VAdd(a, b) = VAdd(b, a)
   /\ VSub(VAdd(a, b), b) = a
   /\ VDot(VCross(a, b), a) = QZero /\ VDot(VCross(a, b), b) = QZero
   /\ VCross(a, b) = VScale(VCross(b, a), QI(-1))
   /\ QAdd(VDot(VCross(a, b), VCross(a, b)), QMul(VDot(a, b), VDot(a, b))) = QMul(VDot(a, a), VDot(b, b))
=============================================================================
