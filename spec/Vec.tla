--------------------------------- MODULE Vec ---------------------------------
(* Vectors with value semantics (P14).  Names (registers) refer to objects;  *)
(* two names may refer to the same object.  The heap gives each object its   *)
(* exact value.  Paths and patches are built from objects and hold them;     *)
(* evaluating one creates a new object and changes nothing.                  *)
EXTENDS Geo
CONSTANT NReg
Regs == 1..NReg

Frames == <<
  << <<1, 0, 0, 1>>, <<0, 1, 0, 1>>, <<0, 0, 1, 1>> >>,
  << <<0, 1, 0, 1>>, <<0, 0, 1, 1>>, <<1, 0, 0, 1>> >>,
  << <<0, -1, 0, 1>>, <<1, 0, 0, 1>>, <<0, 0, 1, 1>> >>,
  << <<1, 2, 2, 3>>, <<2, 1, -2, 3>>, <<-2, 2, -1, 3>> >>,
  << <<3, 4, 0, 5>>, <<0, 0, 1, 1>>, <<4, -3, 0, 5>> >>,
  << <<2, 3, 6, 7>>, <<3, -6, 2, 7>>, <<6, 2, -3, 7>> >> >>

S0 == [reg |-> [r \in Regs |-> 0], heap |-> <<>>, held |-> {}, terms |-> <<>>]
Val(s, r) == s.heap[s.reg[r]]
Has(s, r) == s.reg[r] # 0
Fresh(s, r, v) == [s EXCEPT !.heap = Append(@, v), !.reg[r] = Len(s.heap) + 1]
Change(s, r, v) == [s EXCEPT !.heap[s.reg[r]] = v]
(* a held object must not be changed by the caller *)
Free(s, r) == Has(s, r) /\ s.reg[r] \notin s.held

ToGlobal(v, f, c) ==
  LET F == Frames[f]
      w == VAdd(VAdd(VScale(F[1], VX(v)), VScale(F[2], VY(v))), VScale(F[3], VZ(v)))
  IN VAdd(w, c)
ToLocal(v, f, c) == LET F == Frames[f] w == VSub(v, c) IN VQ(VDot(w, F[1]), VDot(w, F[2]), VDot(w, F[3]))
Zero == <<0, 0, 0, 1>>
Orig(s, e) == IF e.c = 0 THEN Zero ELSE Val(s, e.c)

(* terms of Geo from register values *)
Term(s, e) ==
  LET p == [k \in 1..Len(e.src) |-> Val(s, e.src[k])] IN
  CASE e.kind = "line" -> [k |-> "line", p0 |-> p[1], p1 |-> p[2]]
    [] e.kind = "bez" -> [k |-> "bez", B |-> p]
    [] e.kind = "coons" -> [k |-> "coonsc", p00 |-> p[1], p10 |-> p[2], p11 |-> p[3], p01 |-> p[4], o |-> Zero]
    [] OTHER -> [k |-> e.kind]
Build(s, e) == [s EXCEPT !.terms = Append(@, Term(s, e)), !.held = @ \cup {s.reg[e.src[k]] : k \in 1..Len(e.src)}]
EvalOf(s, e) ==
  LET t == s.terms[e.n] IN
  CASE t.k \in {"line", "bez"} -> Pt(t, Q2(e.t)) [] t.k = "coonsc" -> Sf(t, Q2(e.t), Q2(e.u)) [] OTHER -> VUnk

(* the state after an operation *)
Step(s, e) ==
  CASE e.op = "new" -> Fresh(s, e.r, V(e.v))
    [] e.op = "copy" -> Fresh(s, e.r, Val(s, e.a))
    [] e.op = "alias" -> [s EXCEPT !.reg[e.r] = s.reg[e.a]]
    [] e.op = "neg" -> Fresh(s, e.r, VScale(Val(s, e.a), QI(-1)))
    [] e.op = "add" -> Fresh(s, e.r, VAdd(Val(s, e.a), Val(s, e.b)))
    [] e.op = "sub" -> Fresh(s, e.r, VSub(Val(s, e.a), Val(s, e.b)))
    [] e.op \in {"mul", "rmul"} -> Fresh(s, e.r, VScale(Val(s, e.a), Q2(e.q)))
    [] e.op = "div" -> Fresh(s, e.r, VScale(Val(s, e.a), QInv(Q2(e.q))))
    [] e.op = "unit" -> Fresh(s, e.r, VScale(Val(s, e.a), QInv(VNorm(Val(s, e.a)))))
    [] e.op = "cross" -> Fresh(s, e.r, VCross(Val(s, e.a), Val(s, e.b)))
    [] e.op = "imul" -> Change(s, e.r, VScale(Val(s, e.r), Q2(e.q)))
    [] e.op = "idiv" -> Change(s, e.r, VScale(Val(s, e.r), QInv(Q2(e.q))))
    [] e.op = "normalize" -> Change(s, e.r, VScale(Val(s, e.r), QInv(VNorm(Val(s, e.r)))))
    [] e.op = "global" -> Change(s, e.r, ToGlobal(Val(s, e.r), e.f, Orig(s, e)))
    [] e.op = "local" -> Change(s, e.r, ToLocal(Val(s, e.r), e.f, Orig(s, e)))
    [] e.op = "build" -> Build(s, e)
    [] e.op = "eval" -> IF e.r = 0 THEN s ELSE Fresh(s, e.r, EvalOf(s, e))
    [] e.op \in {"dot", "abs", "norm", "eq", "eq2", "close", "vec"} -> s
(* what a reading operation returns *)
Reads(s, e) ==
  CASE e.op = "dot" -> VDot(Val(s, e.a), Val(s, e.b))
    [] e.op \in {"abs", "norm"} -> VNorm(Val(s, e.a))
    [] e.op \in {"eq2", "close"} -> IF e.v = e.w THEN QOne ELSE QZero
    \* rounding may tell apart equal values computed in different ways
    [] e.op = "eq" -> IF s.reg[e.a] = s.reg[e.b] THEN QOne ELSE IF Val(s, e.a)[4] # 0 /\ Val(s, e.b)[4] # 0 /\ Val(s, e.a) # Val(s, e.b) THEN QZero ELSE QUnk
    [] OTHER -> QUnk
=============================================================================
