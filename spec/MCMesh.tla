------------------------------- MODULE MCMesh -------------------------------
(* Requests on one component with concurrent workers; faults come and go at  *)
(* any moment.  All schedules, fault points and retries within the bounds.   *)
EXTENDS Meshing
CONSTANTS N, MaxW, MaxReq, MaxMove
VARIABLES c, faults, surf, mesh, file, b, req, out, reqs
vars == <<c, faults, surf, mesh, file, b, req, out, reqs>>
None == <<>>
Init == /\ c = NewComp(N, FALSE, 1) /\ faults = {} /\ surf = None /\ mesh = None /\ file = None
        /\ b = NewBuild(0, 1) /\ req = "" /\ out = "" /\ reqs = 0
Toggle == \E p \in 1..N : faults' = (IF p \in faults THEN faults \ {p} ELSE faults \cup {p}) /\ UNCHANGED <<c, surf, mesh, file, b, req, out, reqs>>
Move == /\ req = "" /\ c.lvl < MaxMove /\ c' = Moved(c) /\ surf' = None /\ mesh' = None
        /\ UNCHANGED <<faults, file, b, req, out, reqs>>
(* a request is answered from memory when it can be, else builds *)
Ask(r, w) ==
  /\ req = "" /\ reqs < MaxReq /\ reqs' = reqs + 1
  /\ IF r = "surface" \/ (mesh = None /\ surf = None)
     THEN b' = NewBuild(N, w) /\ req' = r /\ out' = "" /\ UNCHANGED <<c, surf, mesh, file>>
     ELSE LET m == IF mesh = None THEN surf ELSE mesh IN
          /\ mesh' = m /\ out' = "ok" /\ file' = (IF r = "export" THEN <<m, c.lvl>> ELSE file)
          /\ UNCHANGED <<b, req, surf, c>>
  /\ UNCHANGED faults
Start == req # "" /\ CanStart(b) /\ b' = DoStart(b) /\ UNCHANGED <<c, faults, surf, mesh, file, req, out, reqs>>
Finish == req # "" /\ \E p \in b.run : b' = DoFinish(b, p, p \in faults) /\ UNCHANGED <<c, faults, surf, mesh, file, req, out, reqs>>
End ==
  /\ req # "" /\ CanEnd(b)
  /\ IF Failed(b) THEN out' = "error" /\ UNCHANGED <<c, surf, mesh, file>>
     ELSE /\ surf' = Assembled(b)
          /\ mesh' = (IF req = "surface" THEN None ELSE Assembled(b))
          /\ file' = (IF req = "export" THEN <<Assembled(b), c.lvl>> ELSE file)
          /\ c' = Completed(c)
          /\ out' = "ok"
  /\ req' = "" /\ b' = NewBuild(0, 1)
  /\ UNCHANGED <<faults, reqs>>
Next == Toggle \/ Move \/ (\E r \in {"mesh", "surface", "export"}, w \in 1..MaxW : Ask(r, w)) \/ Start \/ Finish \/ End

(* never a mesh or a file lacking patches or with patches out of order *)
Complete == /\ mesh \in {None, Whole(N)} /\ surf \in {None, Whole(N)}
            /\ (file = None \/ (file[1] = Whole(N) /\ file[2] <= c.lvl))
(* what the caller sees is what the request level rules allow *)
Abstract == /\ (mesh # None \/ surf # None) => c.built
            /\ (req = "" /\ out = "ok" /\ reqs > 0 /\ ~c.built) => (mesh = None /\ surf = None)
=============================================================================
