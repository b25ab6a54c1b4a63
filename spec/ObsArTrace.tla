----------------------------- MODULE ObsArTrace -----------------------------
EXTENDS ObsAr, Json, IOUtils
Input == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Input.traces
VARIABLES tid, l, st
vars == <<tid, l, st>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = Empty
\* what every handle reads after the step
Reads(s) == [h \in 1..Len(s.hs) |-> [shape |-> s.hs[h].shape, x |-> Val(s, h)]]
Wrong(ev, r) ==
    (IF ev.err # "" THEN {"err"} ELSE {})
    \cup (IF r.out = "ok" /\ ev.out # "ok" THEN {"out"} ELSE {})
    \cup (IF r.out = "fails" /\ ev.out \notin {"TypeError", "ValueError", "IndexError"} THEN {"out"} ELSE {})
    \cup (IF ev.out = "ok" \/ r.out = "fails" THEN
            (IF ev.log # Calls(r.st, r.rounds) THEN {"notifications"} ELSE {})
            \cup (IF ev.reads # Reads(r.st) THEN {"contents"} ELSE {})
          ELSE {})
    \cup (IF ev.silent # 1 THEN {"reading_notified"} ELSE {})
    \cup (IF ev.op.t \in Exprs \cup {"get"} /\ ev.out = "ok" THEN
            (IF ev.res # Result(st, ev.op) THEN {"result"} ELSE {})
            \cup (IF ev.op.t \in Exprs /\ ev.plain # 1 THEN {"type"} ELSE {})
          ELSE {})
    \cup (IF ev.op.t = "copy" /\ ev.out = "ok" /\ (ev.isobs # 1 \/ ev.nobs # 0 \/ ev.res.x # Val(st, ev.op.h)) THEN {"copy"} ELSE {})
    \cup (IF ev.op.t = "same" /\ ev.isobs # 1 THEN {"same"} ELSE {})
Step ==
    /\ l <= Len(Traces[tid].evs)
    /\ LET ev == Traces[tid].evs[l]
           r == Perform(st, ev.op)
           w == Wrong(ev, r)
       IN /\ st' = r.st
          /\ l' = IF w = {} THEN l + 1 ELSE 1000000
          /\ w # {} => PrintT(<<"MISMATCH", tid, l, w, "ok">>)
    /\ UNCHANGED tid
Spec == Init /\ [][Step]_vars
View == <<tid, l>>
=============================================================================
