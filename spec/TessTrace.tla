----------------------------- MODULE TessTrace -----------------------------
(* Recorded meshes of single patches and of swept components against Tess    *)
(* (P05).  Triangles are matched whatever their order and first vertex.      *)
EXTENDS Tess, TraceLib
VARIABLES h, i
Tol == 25
MPt(v) == <<Micro(VX(v)), Micro(VY(v)), Micro(VZ(v))>>
Eq3(a, b) == Abs(a[1] - b[1]) <= Tol /\ Abs(a[2] - b[2]) <= Tol /\ Abs(a[3] - b[3]) <= Tol
Turned(a, b) == \/ Eq3(a[1], b[1]) /\ Eq3(a[2], b[2]) /\ Eq3(a[3], b[3])
                \/ Eq3(a[1], b[2]) /\ Eq3(a[2], b[3]) /\ Eq3(a[3], b[1])
                \/ Eq3(a[1], b[3]) /\ Eq3(a[2], b[1]) /\ Eq3(a[3], b[2])
Flip(t) == <<t[2], t[1], t[3]>>
Mir(ax, p) == CASE ax = "x" -> <<-p[1], p[2], p[3]>> [] ax = "y" -> <<p[1], -p[2], p[3]>> [] ax = "z" -> <<p[1], p[2], -p[3]>> [] OTHER -> p
MTri(ax, t) == <<Mir(ax, MPt(t[1])), Mir(ax, MPt(t[2])), Mir(ax, MPt(t[3]))>>
Sane(T) == \A k \in 1..Len(T) : \A v \in 1..3 : \A c \in 1..3 : Abs(T[k][v][c]) < 1000000000

(* the expected triangles of a patch, all known, found among the observed;  *)
(* sense = FALSE accepts either winding                                      *)
Found(T, ax, obs, sense) ==
  \A c \in DOMAIN T : \A k \in 1..4 :
    LET w == MTri(ax, T[c][k]) IN \E o \in 1..Len(obs) : Turned(w, obs[o]) \/ (~sense /\ Turned(Flip(w), obs[o]))

PatchBad(e) ==
  LET T == Tris(e.s, e.ni, e.nj, e.ci, e.cj) IN
  IF e.err # "" THEN {"failed"}
  ELSE (IF Len(e.tris) = 4 * e.ni * e.nj THEN {} ELSE {"number of triangles"})
  \cup (IF Unknown(T) THEN {"?"}
        ELSE IF ~Sane(e.tris) THEN {"triangles"}
        ELSE IF Found(T, IF e.mir THEN "y" ELSE "", e.tris, TRUE) THEN {}
        ELSE IF Found(T, IF e.mir THEN "y" ELSE "", e.tris, FALSE) THEN {"winding"} ELSE {"triangles"})

(* swept component: sides swept along r, section edges along s; flat ends    *)
(* between opposite edges                                                    *)
SweptBad(e) ==
  LET ne == Len(e.secs[1])
      nr == e.rs
      rs(k) == e.re[k]
      RevP(p) == [k |-> "rev", u |-> p]
      side(k) == Tris([k |-> "swe", edges |-> [m \in 1..Len(e.secs) |-> e.secs[m][k]]], nr, rs(k), e.ci, e.cj)
      capP(a) == [k |-> "coons", s |-> a[1], e |-> a[2], n |-> RevP(a[3]), w |-> RevP(a[4]), o |-> <<0, 0, 0, 1>>]
      cap(a) == Tris(capP(a), rs(1), rs(2), "u", "u")
      S == TLCEval([k \in 1..ne |-> side(k)])
      C == IF e.close THEN <<cap(e.secs[1]), cap(e.secs[Len(e.secs)])>> ELSE <<>>
      one == 4 * ((IF e.close THEN 2 * rs(1) * rs(2) ELSE 0) + nr * (IF ne = 3 THEN rs(1) + rs(2) + rs(3) ELSE rs(1) + rs(2) + rs(3) + rs(4)))
      copies == IF e.ax = "" THEN {""} ELSE IF e.app THEN {"", e.ax} ELSE {e.ax}
  IN IF e.err # "" THEN {"failed"}
     ELSE (IF Len(e.tris) = one * Cardinality(copies) THEN {} ELSE {"number of triangles"})
     \cup (IF \E k \in 1..ne : Unknown(S[k]) THEN {"?"}
           ELSE IF ~Sane(e.tris) THEN {"triangles"}
           ELSE IF \A ax \in copies : /\ \A k \in 1..ne : Found(S[k], ax, e.tris, ax = "")
                                      /\ \A k \in 1..Len(C) : Found(C[k], ax, e.tris, FALSE) THEN {} ELSE {"triangles"})

(* the row of parameters between two bounds, at a given number of steps      *)
RowBad(e) ==
  IF e.err # "" THEN {"failed"}
  ELSE IF Len(e.vals) # e.n THEN {"number of parameters"}
  ELSE IF \A k \in 1..e.n : Abs(e.vals[k] - Micro(QAdd(QN(e.lb, 1), QMul(QPow(QN(k - 1, e.n - 1), e.p), QN(e.ub - e.lb, 1))))) <= Tol THEN {} ELSE {"parameters"}

Bad(e) == CASE e.op = "row" -> RowBad(e) [] e.op = "patch" -> PatchBad(e) [] e.op = "swept" -> SweptBad(e) [] e.op = "lost" -> {"lost"}
Init == h \in 1..NH /\ i = 1
Next == /\ i <= Len(Hist[h].ev)
        /\ Report(h, i, Bad(Hist[h].ev[i]))
        /\ i' = i + 1
        /\ h' = h
=============================================================================
