------------------------------ MODULE ClusTrace ------------------------------
(* Recorded clustering against Cluster (P15).                                *)
EXTENDS Cluster, TraceLib
VARIABLES h, i
Tol == 4
Q2(v) == QN(v[1], v[2])
AllNear(o, q) == IF Len(o) # Len(q) THEN {"count"} ELSE IF \A k \in 1..Len(q) : Near(o[k], q[k], Tol) THEN {} ELSE {"value"}
Unk(q) == IF \E k \in 1..Len(q) : q[k][2] = 0 THEN {"?"} ELSE {}
(* laws for any stretching factor: o are the values at k/n, r those of the function with the ends swapped *)
Gap(o, k) == o[k + 1] - o[k]
Laws(e) ==
  LET o == e.val n == e.n IN
  IF Len(o) # n + 1 \/ Len(e.rev) # n + 1 THEN {"count"}
  ELSE IF \E k \in 1..(n + 1) : o[k] = NaNObs \/ e.rev[k] = NaNObs THEN {"value"}
  ELSE (IF NearI(o[1], 0, Tol) /\ NearI(o[n + 1], 1000000, Tol) THEN {} ELSE {"ends moved"})
  \cup (IF \A k \in 1..n : o[k] < o[k + 1] THEN {} ELSE {"not increasing"})
  \cup (IF \A k \in 1..(n + 1) : NearI(o[k] + e.rev[n + 2 - k], 1000000, Tol) THEN {} ELSE {"not mirrored"})
  \cup (IF \A k \in 1..(n - 1) :
          /\ e.e0 = 1 /\ e.e1 = 0 => Gap(o, k) <= Gap(o, k + 1) + Tol
          /\ e.e0 = 0 /\ e.e1 = 1 => Gap(o, k + 1) <= Gap(o, k) + Tol
          /\ e.e0 = 1 /\ e.e1 = 1 /\ 2 * (k + 1) <= n => Gap(o, k) <= Gap(o, k + 1) + Tol
        THEN {} ELSE {"clustered elsewhere"})
Grid(e, F(_, _, _)) == [k \in 1..((e.ni + 1) * (e.nj + 1)) |->
   F(e.cf, QN((k - 1) \div (e.nj + 1), e.ni), QN((k - 1) % (e.nj + 1), e.nj))]
Bad(e) ==
  IF e.op = "lost" THEN {"lost"}
  ELSE IF e.err # "" THEN {"failed"}
  ELSE IF e.op = "call" THEN
    LET q == [k \in 1..Len(e.xs) |-> Clus(e.f, Q2(e.xs[k]))] IN Unk(q) \cup AllNear(e.val, q) \cup (IF e.kept THEN {} ELSE {"argument changed"})
  ELSE IF e.op = "points" THEN
    LET q == Points(e.f, Q2(e.t1), Q2(e.t2), e.n) IN Unk(q) \cup AllNear(e.val, q)
  ELSE IF e.op = "laws" THEN Laws(e)
  ELSE LET r == Grid(e, GridR) s == Grid(e, GridS) IN Unk(r) \cup Unk(s) \cup AllNear(e.vr, r) \cup AllNear(e.vs, s)
Init == h \in 1..NH /\ i = 1
Next == /\ i <= Len(Hist[h].ev)
        /\ Report(h, i, Bad(Hist[h].ev[i]))
        /\ i' = i + 1
        /\ h' = h
=============================================================================
