-------------------------------- MODULE SCG --------------------------------
(* Scaled conjugate gradients, as far as its results can be relied on.          *)
(* Objective values are integers in order, NAN is the one that is not a number. *)
EXTENDS PySeq
NAN == 100000001
INF == 100000000
\* is a step to fnew a success? (no numbers compare with NAN, and INF - INF is not one)
Success(fold, fnew) == fnew # NAN /\ fold # NAN /\ fnew <= fold /\ ~(fnew = INF /\ fold = INF)
RECURSIVE Down(_)
Down(q) == Len(q) <= 1 \/ ((q[1] = q[2] \/ (q[1] # NAN /\ q[2] # NAN /\ q[1] >= q[2])) /\ Down(Tail(q)))

(* a finished call: calls, the evaluations in order as [e (f or g), p (point), v (value)]; the  *)
(* points are numbered, 0 is the start; res = [log, p (the returned point), evals, max]         *)
FAt(calls, p) == {calls[i].v : i \in {j \in DOMAIN calls : calls[j].e = "f" /\ calls[j].p = p}}
Wrongs(calls, res) ==
    (IF res.log = <<>> \/ Head(res.log) \notin FAt(calls, 0) THEN {"first"} ELSE {})
    \cup (IF ~Down(res.log) THEN {"down"} ELSE {})
    \cup (IF res.log = <<>> \/ res.log[Len(res.log)] \notin FAt(calls, res.p) THEN {"last"} ELSE {})
    \cup (IF Len(res.log) - 1 > res.max THEN {"iterations"} ELSE {})
    \cup (IF res.evals # Len(calls) THEN {"evaluations"} ELSE {})
=============================================================================
