----------------------------- MODULE InstTrace -----------------------------
(* Recorded interleavings against Instances.  ref lists, for each kind and   *)
(* set of overrides, the vehicle made alone in a process of its own; menu    *)
(* the default and the overriding value of each parameter.                   *)
EXTENDS Instances, Ops, TraceLib
VARIABLES h, i, s
Tol == 20
SetOf(q) == {q[k] : k \in 1..Len(q)}
After(st, e) ==
  CASE e.op = "gen" -> DoGen(st, e.kind, SetOf(e.kw))
    [] e.op = "set" -> DoSet(st, e.g, e.n)
    [] e.op = "create" -> DoCreate(st, e.g)
    [] e.op = "build" -> DoBuild(st, e.k)
    [] e.op = "shift" -> DoShift(st, e.k, e.v)
    [] OTHER -> st
Ref(hh, x) == LET k == CHOOSE k \in 1..Len(hh.ref) : hh.ref[k].kind = x.kind /\ SetOf(hh.ref[k].kw) = x.kw IN hh.ref[k].pts
At(p, v) == <<p[1] + 1000000 * v[1], p[2] + 1000000 * v[2], p[3] + 1000000 * v[3]>>
InstBad(hh, x, o) ==
  IF ~x.gen THEN IF o = <<>> THEN {} ELSE {"patches before generation"}
  ELSE LET r == Ref(hh, x) IN
       IF Len(r) = Len(o) /\ \A k \in 1..Len(r) : CloseP(At(r[k], x.at), o[k], Tol) THEN {} ELSE {"vehicle"}
AttrBad(hh, g, o) ==
  IF \A n \in 1..2 : o[n] = (IF n \in g.kw THEN hh.menu[g.kind][n].alt ELSE hh.menu[g.kind][n].def) THEN {} ELSE {"parameter"}
Bad(hh, st, st2, e) ==
  IF e.op = "lost" THEN {"lost"}
  ELSE (IF e.rej = (e.op = "shift" /\ ~st.inst[e.k].gen) THEN {} ELSE {"refusal"})
       \cup UNION {InstBad(hh, st2.inst[k], e.pts[k]) : k \in 1..Len(st2.inst)}
       \cup UNION {AttrBad(hh, st2.gens[g], e.attr[g]) : g \in 1..Len(st2.gens)}
Init == h \in 1..NH /\ i = 1 /\ s = IStart
Next == /\ i <= Len(Hist[h].ev)
        /\ LET e == Hist[h].ev[i]
               s2 == After(s, e)
           IN Report(h, i, Bad(Hist[h], s, s2, e)) /\ s' = s2
        /\ i' = i + 1
        /\ h' = h
=============================================================================
