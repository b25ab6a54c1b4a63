-------------------------------- MODULE SCGMC --------------------------------
(* The control flow of the algorithm under an adversary who chooses the objective *)
(* values and when the tests on step size and gradient succeed.                   *)
EXTENDS SCG, Json
CONSTANTS FS, MAXIT
VARIABLES pc, max, log, calls, fold, at, again, fs
vars == <<pc, max, log, calls, fold, at, again, fs>>
Init == /\ pc = "start" /\ max \in 0..MAXIT /\ log = <<>> /\ calls = <<>> /\ fold = 0 /\ at = 0 /\ again = TRUE /\ fs = <<>>
Call(e, p, v) == [e |-> e, p |-> p, v |-> v]
Iter == Len(log) - 1
Done == /\ pc' = "done"
Begin == /\ pc = "start"
         /\ \E v \in FS :
              /\ fs' = <<v>> /\ log' = <<v>> /\ fold' = v
              /\ calls' = <<Call("f", 0, v), Call("g", 0, 0)>>
         /\ pc' = "loop" /\ UNCHANGED <<max, at, again>>
Loop == /\ pc = "loop"
        /\ IF Iter >= max THEN pc' = "done" /\ UNCHANGED <<max, log, calls, fold, at, again, fs>>
           ELSE \E v \in FS : \E stop \in {"no", "step", "gradient"} :
                LET p == Len(fs)               \* a new point
                    c1 == IF again THEN Append(calls, Call("g", -p, 0)) ELSE calls
                    c2 == Append(c1, Call("f", p, v))
                    ok == Success(fold, v)
                    conv == ok /\ (v = fold \/ stop = "step")
                IN /\ fs' = Append(fs, v)
                   /\ log' = Append(log, IF ok THEN v ELSE fold)
                   /\ at' = IF ok THEN p ELSE at
                   /\ fold' = IF ok THEN v ELSE fold
                   /\ again' = ok
                   /\ calls' = IF ok /\ ~conv THEN Append(c2, Call("g", p, 0)) ELSE c2
                   /\ pc' = IF conv \/ (ok /\ stop = "gradient") THEN "done" ELSE "loop"
                   /\ UNCHANGED max
Write == /\ pc = "done" /\ pc' = "end"
         /\ PrintT("SCRIPT " \o ToJson([max |-> max, fs |-> fs]))
         /\ UNCHANGED <<max, log, calls, fold, at, again, fs>>
Next == Begin \/ Loop \/ Write
Spec == Init /\ [][Next]_vars
Inv == pc = "done" => Wrongs(calls, [log |-> log, p |-> at, evals |-> Len(calls), max |-> max]) = {}
View == <<pc, max, log, at, fs, again, Len(calls)>>
=============================================================================
