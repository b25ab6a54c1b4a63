----------------------------- MODULE OptimizeMC -----------------------------
(* All outcomes of up to NRUN restarts of a small model, after an earlier run or *)
(* not, with a fixed value or not.                                               *)
EXTENDS Optimize, Json
CONSTANTS NRUN, FS, ERRS
VARIABLES st, hist, done
vars == <<st, hist, done>>
M == [v |-> <<4, 8>>, k |-> <<1, 2>>, w |-> <<1, 1>>]
\* the i-th run ends at i
Runs(i) == {[out |-> "ok", f |-> f, x |-> i] : f \in FS} \cup {[out |-> e, f |-> 0, x |-> i] : e \in ERRS}
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE {Append(q, r) : q \in Seqs(n - 1), r \in Runs(n)}
Fill(st1, r) == [r EXCEPT !.x = [j \in 1..Len(Free(M, st1)) |-> r.x]]
Init == st = Start(M) /\ hist = <<>> /\ done = FALSE
Go(op, s) == /\ st' = s
             /\ hist' = Append(hist, op)
             /\ PrintT("SCRIPT " \o ToJson(hist'))
Ends(e) == IF e.ends = {} THEN st.v ELSE CHOOSE x \in e.ends : TRUE
Next ==
    \/ /\ ~done /\ UNCHANGED done
       /\ \/ \E i \in {1, 2} : i \notin st.fixed /\ (\A j \in DOMAIN hist : hist[j].t = "fix") /\ Go([t |-> "fix", i |-> i], Edit(M, st, [t |-> "fix", i |-> i]))
          \/ hist = <<>> /\ Go([t |-> "updates", on |-> 0], Edit(M, st, [t |-> "updates", on |-> 0]))
          \/ /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].t # "optimize")
             /\ \E r \in {x \in Runs(3) : x.f # NAN} :
                LET op == [t |-> "optimize", run |-> Fill(st, r)]
                    e == Expect(M, st, op)
                IN Go(op, [st EXCEPT !.v = Ends(e), !.runs = @ + e.more, !.upd = TRUE])
    \/ /\ ~done /\ done' = TRUE
       /\ \E n \in 0..NRUN : \E q \in Seqs(n) : \E rob \in {0, 1} :
             LET op == [t |-> "restarts", robust |-> rob, runs |-> [i \in 1..n |-> Fill(st, q[i])]]
                 e == Expect(M, st, op)
             IN /\ Go(op, [st EXCEPT !.v = Ends(e), !.runs = @ + e.more, !.upd = TRUE])
                \* the laws
                /\ \A x \in e.ends : Keeps(st, x)
                /\ e.out = "ok" => e.ends # {}
                /\ rob = 1 => e.out = "ok"
                /\ (e.out = "ok" /\ e.more > 0) =>
                      \A x \in e.ends : \E i \in 1..n :
                          /\ q[i].out = "ok" /\ x = Put(M, st, op.runs[i].x)
                          /\ \A j \in 1..n : q[j].out = "ok" => ~(q[j].f < q[i].f /\ q[i].f # NAN)
                /\ (e.out = "ok" /\ e.more = 0) => e.ends = {st.v}
Spec == Init /\ [][Next]_vars
=============================================================================
