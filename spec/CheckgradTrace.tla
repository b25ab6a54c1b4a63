--------------------------- MODULE CheckgradTrace ---------------------------
EXTENDS Checkgrad, Json, IOUtils
Input == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Input.traces
VARIABLES tid, l
vars == <<tid, l>>
Init == tid \in 1..Len(Traces) /\ l = 1
Step ==
    /\ l <= Len(Traces[tid].evs)
    /\ LET m == Traces[tid]
           ev == m.evs[l]
           c == Covered(m.sz, m.node, ev.op.h)
           w == (IF ev.err # "" \/ ev.out # "ok" THEN {"err"} ELSE
                 (IF (ev.verdict = 1) = Verdict(c, Range(ev.op.fixed), Range(ev.op.wrong)) THEN {} ELSE {"verdict"})
                 \cup (IF ev.after.vals = ev.before.vals THEN {} ELSE {"values"})
                 \cup (IF ev.after.cons = ev.before.cons THEN {} ELSE {"constraints"})
                 \cup (IF ev.after.upd = ev.before.upd THEN {} ELSE {"updates"})
                 \cup (IF ev.after.seen = ev.after.vals THEN {} ELSE {"derived"}))
       IN /\ l' = IF w = {} THEN l + 1 ELSE 1000000
          /\ w # {} => PrintT(<<"MISMATCH", tid, l, w, "ok">>)
    /\ UNCHANGED tid
Spec == Init /\ [][Step]_vars
View == <<tid, l>>
=============================================================================
