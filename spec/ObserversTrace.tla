--------------------------- MODULE ObserversTrace ---------------------------
EXTENDS Observers, Json, IOUtils
Input == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Input.traces
VARIABLES tid, l, st
vars == <<tid, l, st>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = Start(Traces[tid].subjects, 1..Traces[tid].observers)
Wrong(ev, r) ==
    IF ev.err # "" THEN {"err"}
    ELSE IF ev.op.t = "notify" THEN
           (IF ~r.ok \/ r.i # Len(ev.log) + 1 THEN {"calls"} ELSE {})
           \cup (IF (ev.out = "ok") = r.raised THEN {"out"} ELSE {})
    ELSE (IF ev.out # "ok" THEN {"out"} ELSE {}) \cup (IF ev.log # <<>> THEN {"calls"} ELSE {})
Step ==
    /\ l <= Len(Traces[tid].evs)
    /\ LET ev == Traces[tid].evs[l]
           r == IF ev.op.t = "notify" THEN RunNotify(st, ev.op, ev.log, 1)
                ELSE [ok |-> TRUE, st |-> Effect(st, ev.op), i |-> 1, raised |-> FALSE]
           w == Wrong(ev, r)
       IN /\ st' = r.st
          /\ l' = IF w = {} THEN l + 1 ELSE 1000000
          /\ w # {} => PrintT(<<"MISMATCH", tid, l, w, "ok">>)
    /\ UNCHANGED tid
Spec == Init /\ [][Step]_vars
View == <<tid, l>>
=============================================================================
