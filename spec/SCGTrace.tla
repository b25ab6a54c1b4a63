------------------------------ MODULE SCGTrace ------------------------------
EXTENDS SCG, Json, IOUtils
Input == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Input.traces
VARIABLES tid, l
vars == <<tid, l>>
Init == tid \in 1..Len(Traces) /\ l = 1
Step ==
    /\ l <= Len(Traces[tid].evs)
    /\ LET ev == Traces[tid].evs[l]
           w == IF ev.err # "" THEN {"err"} ELSE Wrongs(ev.calls, ev.res)
       IN /\ l' = IF w = {} THEN l + 1 ELSE 1000000
          /\ w # {} => PrintT(<<"MISMATCH", tid, l, w, "ok">>)
    /\ UNCHANGED tid
Spec == Init /\ [][Step]_vars
View == <<tid, l>>
=============================================================================
