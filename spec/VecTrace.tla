------------------------------ MODULE VecTrace ------------------------------
(* Recorded vector operations against Vec (P14).  regs are the values of all *)
(* names after the operation, val what it returned; memo holds what each     *)
(* path or patch gave at each parameter before.                              *)
EXTENDS Vec, TraceLib
VARIABLES h, i, s, memo
Tol == 8
T(e) == Step(s, e)
RegBad(e) ==
  IF \A r \in Regs : ~Has(T(e), r) \/ NearV(e.regs[r], Val(T(e), r), Tol) THEN {}
  ELSE IF \A r \in Regs : r = e.r \/ ~Has(T(e), r) \/ (e.r # 0 /\ Has(s, r) /\ T(e).reg[r] = T(e).reg[e.r]) \/ NearV(e.regs[r], Val(T(e), r), Tol) THEN {"value"} ELSE {"other vector changed"}
ReadBad(e) ==
  LET q == Reads(s, e) IN
  CASE e.op = "vec" -> IF NearV(e.val, Val(s, e.a), Tol) THEN {} ELSE {"value"}
    [] e.op \in {"dot", "abs", "norm", "eq", "eq2", "close"} -> IF q[2] = 0 \/ Abs(q[1]) \div q[2] >= 900 THEN {} ELSE IF Near(e.val, q, Tol) THEN {} ELSE {"value"}
    [] OTHER -> {}
Seen(e) == {m \in memo : m[1] = e.n /\ m[2] = e.t /\ m[3] = e.u}
EvalBad(e) ==
  (LET v == EvalOf(s, e) IN IF v[4] = 0 \/ NearV(e.val, v, Tol) THEN {} ELSE {"value"})
  \cup (IF \A m \in Seen(e) : NearP(m[4], e.val, 2) THEN {} ELSE {"evaluation not repeatable"})
Unknown(e) == \E r \in Regs : Has(T(e), r) /\ Val(T(e), r)[4] = 0
Bad(e) ==
  IF e.op = "lost" THEN {"lost"}
  ELSE IF e.err # "" THEN {"failed"}
  ELSE RegBad(e) \cup ReadBad(e) \cup (IF e.op = "eval" THEN EvalBad(e) ELSE {})
Init == h \in 1..NH /\ i = 1 /\ s = S0 /\ memo = {}
Next == /\ i <= Len(Hist[h].ev)
        /\ LET e == Hist[h].ev[i] IN
           /\ Report(h, i, Bad(e))
           /\ s' = IF e.op = "lost" THEN s ELSE Step(s, e)
           /\ memo' = IF e.op = "eval" /\ e.err = "" THEN memo \cup {<<e.n, e.t, e.u, e.val>>} ELSE memo
        /\ i' = i + 1
        /\ h' = h
=============================================================================
