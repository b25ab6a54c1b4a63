----------------------------- MODULE CacheTrace -----------------------------
EXTENDS Cache, Json, IOUtils
Input == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Input.traces
Fields == Range(Input.fields)
VARIABLES tid, l, st
vars == <<tid, l, st>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = Start(Traces[tid].cells, Len(Traces[tid].caches))
Step ==
    /\ l <= Len(Traces[tid].evs)
    /\ LET t == Traces[tid]
           ev == t.evs[l]
           r == IF ev.op.t = "call" THEN Exec(t.objs, t.caches, st, ev.rec, {})
                ELSE Apply(t.objs, t.caches, st, ev.op, ev.inner)
           w == (r.bad \cup (IF ev.err # "" THEN {"err"} ELSE {})
                 \cup (IF Dangling(t.objs, r.st, ev.regs) THEN {"observers"} ELSE {})) \cap Fields
       IN /\ st' = r.st
          /\ l' = IF w = {} THEN l + 1 ELSE 1000000
          /\ w # {} => PrintT(<<"MISMATCH", tid, l, w, "ok">>)
    /\ UNCHANGED tid
Spec == Init /\ [][Step]_vars
View == <<tid, l>>
=============================================================================
