---------------------------- MODULE FailuresTrace ----------------------------
EXTENDS Failures, Json, IOUtils
Input == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Input.traces
VARIABLES tid, l, count, v
vars == <<tid, l, count, v>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ count = 0 /\ v = Traces[tid].v
Tok(n, big) == IF big = 0 \/ n = 0 THEN ToString(n) ELSE IF n > 0 THEN "huge" ELSE "-huge"
Small(t) == t \notin {"huge", "-huge", "inf", "-inf"}
Same(t, n, big) == IF big = 0 \/ n = 0 THEN t = ToString(n) ELSE IF n > 0 THEN t = "big" ELSE t = "-big"
Wrong(m, ev, r, nv) ==
    IF ev.err # "" THEN {"err"}
    ELSE IF ev.op.t = "end" THEN (IF ev.out # "ok" THEN {"out"} ELSE {})
    ELSE IF ev.out \notin r.out THEN {"out"}
    ELSE IF ev.out = "ok" THEN
           (IF ev.op.kind # "grads" /\ ev.ret.f # (IF ev.op.odd # "" THEN ev.op.odd ELSE ToString(Obj(m, nv))) THEN {"objective"} ELSE {})
           \cup (IF ev.op.kind # "obj" /\ ev.ret.g # MapSeq(Grad(m, nv), LAMBDA x : Tok(x, m.big)) THEN {"gradient"} ELSE {})
           \cup (IF ev.vals # nv THEN {"values"} ELSE {})
    ELSE IF ev.out = "failed" THEN
           (IF ev.op.kind # "grads" /\ ev.ret.f # "inf" THEN {"objective"} ELSE {})
           \cup (IF ev.op.kind # "obj" /\ (Len(ev.ret.g) # Len(Free(m)) \/ \E t \in Range(ev.ret.g) : ~Small(t)) THEN {"gradient"} ELSE {})
           \cup (IF ev.op.kind # "obj" /\ ev.op.u = "" /\ ev.op.g = ""
                    /\ (Len(ev.ret.g) # Len(Free(m)) \/ \E j \in 1..Len(ev.ret.g) : ~Same(ev.ret.g[j], Grad(m, nv)[j], m.big))
                 THEN {"gradient"} ELSE {})
    ELSE {}
Step ==
    /\ l <= Len(Traces[tid].evs)
    /\ LET m == Traces[tid]
           ev == m.evs[l]
           nv == IF ev.op.t = "end" THEN ev.vals ELSE Put(m, v, ev.op.x)
           r == IF ev.op.t = "end" THEN [out |-> {"ok"}, count |-> count] ELSE Outcome(ev.op, count, m.limit)
           w == Wrong(m, ev, r, nv)
       IN /\ count' = r.count
          /\ v' = ev.vals
          /\ l' = IF w = {} THEN l + 1 ELSE 1000000
          /\ w # {} => PrintT(<<"MISMATCH", tid, l, w, "ok">>)
    /\ UNCHANGED tid
Spec == Init /\ [][Step]_vars
View == <<tid, l>>
=============================================================================
