--------------------------- MODULE TransformTrace ---------------------------
EXTENDS Transform, Json, IOUtils
Input == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Input.traces
VARIABLES tid, l, st
vars == <<tid, l, st>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = Start(Traces[tid].n)
N(s) == Len(s.vars)
Wrong(ev, s) ==
    LET op == ev.op
    IN (IF ev.err # "" THEN {"err"} ELSE {})
       \cup (IF op.t = "values" THEN
               (IF \E k \in DOMAIN ev.points : PointWrong(op.key.c, ev.points[k]) # {}
                THEN UNION {PointWrong(op.key.c, ev.points[k]) : k \in DOMAIN ev.points} ELSE {})
               \cup (IF ~Monotone(op.key.c, ev.points, ev.cmp) THEN {"monotone"} ELSE {})
               \cup (IF ev.untouched # 1 THEN {"untouched"} ELSE {})
               \cup (IF ev.ends # 1 THEN {"ends"} ELSE {})
               \cup (IF \E k \in DOMAIN ev.inits : ev.inits[k].dom # 1 \/ (ev.inits[k].was = 1 /\ ev.inits[k].kept # 1) THEN {"initialize"} ELSE {})
             ELSE
               (IF ev.out # Out(s, op) THEN {"out"} ELSE {})
               \cup (IF ev.same # [v \in 1..N(st) |-> [w \in 1..N(st) |-> IF Same(Effect(s, op), v, w) THEN 1 ELSE 0]] THEN {"identity"} ELSE {})
               \cup (IF ev.keys # [v \in 1..N(st) |-> Effect(s, op).vars[v].key] THEN {"bounds"} ELSE {}))
Step ==
    /\ l <= Len(Traces[tid].evs)
    /\ LET ev == Traces[tid].evs[l]
           w == Wrong(ev, st)
       IN /\ st' = IF ev.op.t = "values" THEN st ELSE Effect(st, ev.op)
          /\ l' = IF w = {} THEN l + 1 ELSE 1000000
          /\ w # {} => PrintT(<<"MISMATCH", tid, l, w, "ok">>)
    /\ UNCHANGED tid
Spec == Init /\ [][Step]_vars
View == <<tid, l>>
=============================================================================
