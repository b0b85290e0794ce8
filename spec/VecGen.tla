------------------------------- MODULE VecGen -------------------------------
(* Random histories of vector operations and evaluations.                    *)
EXTENDS Vec, TLC, Json
CONSTANTS MaxLen
VARIABLES s, hist, bang
\* depends on the state so that TLC does not evaluate it only once
R(S) == RandomElement(IF bang THEN S ELSE S)
RV(x) == <<R(-6..6), R(-6..6), R(-6..6), R({1, 1, 1, 2})>>
Nice == {<<3, 4, 0, 1>>, <<1, 2, 2, 1>>, <<-2, 3, 6, 1>>, <<0, 0, -2, 1>>, <<4, -4, 7, 2>>, <<0, 5, 12, 1>>, <<-1, 4, 8, 2>>}
Types == {"int", "float", "float", "np64", "npint", "arr"}
KTypes == {"int", "float", "np64", "npint"}
Qs == {<<1, 1>>, <<2, 1>>, <<-1, 1>>, <<1, 2>>, <<3, 1>>, <<-3, 2>>, <<1, 4>>, <<5, 1>>}
Ts == {<<0, 1>>, <<1, 1>>, <<1, 2>>, <<1, 4>>, <<3, 4>>, <<1, 3>>}
Set == {r \in Regs : Has(s, r)}
Frees == {r \in Set : Free(s, r)}
Fits(v) == v[4] # 0 /\ v[4] <= 600 /\ \A c \in 1..3 : Abs(v[c]) <= 20000 /\ Abs(v[c]) \div v[4] < 300
Init == s = S0 /\ hist = <<>> /\ bang = FALSE
Do(e) == s' = Step(s, e) /\ hist' = Append(hist, e) /\ bang' = FALSE
NewOp(x) == LET n == R(1..4) = 1 ty == R(Types) v == IF n THEN R(Nice) ELSE RV(1) IN
            [op |-> "new", r |-> R(Regs), v |-> v, ty |-> IF v[4] # 1 /\ ty \in {"int", "npint"} THEN "float" ELSE ty]
K(q, x) == LET ty == R(KTypes) IN IF q[2] # 1 /\ ty \in {"int", "npint"} THEN "float" ELSE ty
Scale(x, o) == LET q == IF o = "div" THEN R(Qs) ELSE R(Qs \cup {<<0, 1>>}) IN [op |-> o, q |-> q, ty |-> K(q, 1), r |-> R(Regs), a |-> R(Set)]
InScale(x, o) == LET q == R(Qs) ty == K(q, 1) IN [op |-> o, q |-> q, ty |-> IF o = "imul" /\ ty = "npint" THEN "int" ELSE ty, r |-> R(Frees)]
Op(x) ==
  IF Set = {} \/ x <= 14 THEN NewOp(1)
  ELSE IF x <= 18 THEN [op |-> "copy", r |-> R(Regs), a |-> R(Set)]
  ELSE IF x <= 23 THEN [op |-> "alias", r |-> R(Regs), a |-> R(Set)]
  ELSE IF x <= 26 THEN [op |-> "neg", r |-> R(Regs), a |-> R(Set)]
  ELSE IF x <= 36 THEN [op |-> R({"add", "sub", "cross"}), r |-> R(Regs), a |-> R(Set), b |-> R(Set)]
  ELSE IF x <= 42 THEN Scale(1, R({"mul", "rmul", "div"}))
  ELSE IF x <= 50 THEN IF Frees = {} THEN NewOp(1) ELSE InScale(1, R({"imul", "idiv"}))
  ELSE IF x <= 53 THEN [op |-> "unit", r |-> R(Regs), a |-> R(Set)]
  ELSE IF x <= 56 THEN IF Frees = {} THEN NewOp(1) ELSE [op |-> "normalize", r |-> R(Frees)]
  ELSE IF x <= 66 THEN IF Frees = {} THEN NewOp(1) ELSE [op |-> R({"global", "local"}), r |-> R(Frees), f |-> R(1..6), c |-> R({0} \cup Set)]
  ELSE IF x <= 74 THEN LET o == R({"dot", "abs", "norm", "eq", "vec"}) IN [op |-> o, a |-> R(Set), b |-> R(Set)]
  ELSE IF x <= 77 THEN LET v == RV(1) c == R(1..3) d == R({0, 0, 1, -2}) IN [op |-> R({"eq2", "close"}), v |-> v, w |-> [v EXCEPT ![c] = @ + d]]
  ELSE IF x <= 85 \/ s.terms = <<>> THEN
       LET k == R({"line", "bez", "coons", "poly", "spline", "alp", "swept", "cpoly"}) a == R(Set) b == R(Set) c == R(Set) d == R(Set) IN
       [op |-> "build", kind |-> k, src |-> IF k \in {"line"} THEN <<a, b>> ELSE IF k = "bez" THEN <<a, b, c>> ELSE <<a, b, c, d>>]
  ELSE LET n == R(1..Len(s.terms)) ex == s.terms[n].k \in {"line", "bez", "coonsc"} IN
       [op |-> "eval", n |-> n, t |-> R(Ts), u |-> R(Ts), r |-> IF ex THEN R({0} \cup Regs) ELSE 0]
(* distinct points for curves that need them *)
Pts(e) == {Val(s, e.src[k]) : k \in 1..Len(e.src)}
Dst(e) == LET p == [k \in 1..Len(e.src) |-> Val(s, e.src[k])] IN \A j, k \in 1..Len(p) : j < k => p[j] # p[k]
Good(e) ==
  /\ e.op \in {"unit", "normalize", "norm", "abs"} => VDot(Val(s, IF e.op = "normalize" THEN e.r ELSE e.a), Val(s, IF e.op = "normalize" THEN e.r ELSE e.a))[1] > 0
  /\ e.op = "build" => Dst(e)
  /\ LET t == Step(s, e) IN t.heap # s.heap => \A k \in 1..Len(t.heap) : Fits(t.heap[k])
Next ==
  \/ /\ Len(hist) < MaxLen
     /\ \E x \in {R(1..100)} : \E e \in {TLCEval(Op(x))} : \E f \in {TLCEval(NewOp(hist))} : IF Good(e) THEN Do(e) ELSE Do(f)
  \/ /\ Len(hist) >= MaxLen /\ ~bang
     /\ bang' = PrintT("@@GEN|" \o ToJson([ev |-> hist]))
     /\ UNCHANGED <<s, hist>>
=============================================================================
