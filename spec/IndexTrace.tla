---------------------------- MODULE IndexTrace ----------------------------
EXTENDS IndexOps, Json, IOUtils
Input == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Input.traces
VARIABLES tid, l, objs
vars == <<tid, l, objs>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ objs = <<>>

Sets(q) == [i \in DOMAIN q |-> Range(q[i])]
RetOK(op, ret, r) ==
    IF op.t \in {"remove", "get"} THEN /\ Sets(ret) = r.ret
                                       /\ Len(ret[1]) = Cardinality(r.ret[1])
    ELSE IF op.t = "dict" THEN         \* in the order asked for
        /\ Sets(ret) = r.ret
        /\ \A k \in DOMAIN ret : ret[k] = Filter(op.ix, LAMBDA x : x \in r.ret[k])
    ELSE Sets(ret) = r.ret
\* the listing of one object: <<property, indices>> in any order, no empty ones
ListOK(m, list) ==
    /\ \A k \in DOMAIN list : /\ list[k][1] \in Props
                              /\ list[k][2] # <<>>
                              /\ Range(list[k][2]) = m[list[k][1]]
                              /\ Len(list[k][2]) = Cardinality(m[list[k][1]])
    /\ \A p \in Props : m[p] # {} => \E k \in DOMAIN list : list[k][1] = p
    /\ \A k \in DOMAIN list : \A j \in DOMAIN list : list[k][1] = list[j][1] => k = j
\* deleting what is not there changes nothing, it may say so
MayRaise(ev, s1) == ev.op.t = "del" /\ ev.out = "KeyError" /\ Read(s1, ev.op.o)[ev.op.p] = {}
Wrong(ev, r) ==
    IF ev.err # "" THEN {"err"}
    ELSE (IF ev.out # "ok" /\ ~MayRaise(ev, objs) THEN {"out"} ELSE {})
      \cup (IF ev.out = "ok" /\ ~RetOK(ev.op, ev.ret, r) THEN {"ret"} ELSE {})
      \cup (IF ev.obs # <<>> /\ Len(ev.obs) # Len(r.objs) THEN {"obs"}
            ELSE IF \E i \in DOMAIN ev.obs : ~ListOK(Read(r.objs, i), ev.obs[i]) THEN {"obs"} ELSE {})
Step ==
    /\ l <= Len(Traces[tid].evs)
    /\ LET ev == Traces[tid].evs[l]
           r == Apply(objs, ev.op)
           w == Wrong(ev, r)
       IN /\ objs' = r.objs
          /\ l' = IF w = {} THEN l + 1 ELSE 1000000
          /\ w # {} => PrintT(<<"MISMATCH", tid, l, w, "ok">>)
    /\ UNCHANGED tid
Spec == Init /\ [][Step]_vars
View == <<tid, l>>
=============================================================================
