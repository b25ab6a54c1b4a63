---------------------------- MODULE OptimizeTrace ----------------------------
(* Histories of two models built alike: a is optimized without, b with messages. *)
EXTENDS Optimize, Json, IOUtils
Input == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Input.traces
Fields == Range(Input.fields)
VARIABLES tid, l, st
vars == <<tid, l, st>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = Start(Traces[tid])
IsRun(op) == op.t \in {"optimize", "restarts"}
If(name, ok) == IF name \in Fields /\ ~ok THEN {name} ELSE {}

\* one side of a run of scripted optimizers
Side(m, s, op, e, o) ==
    If("out", o.out = e.out)
    \cup If("values", IF e.ends = {} THEN Keeps(s, o.vals) ELSE o.vals \in e.ends)
    \cup If("derived", (e.out = "ok" /\ e.ran) => o.seen = o.vals)
    \cup If("runs", o.runs = s.runs + e.more)
    \cup If("start", (e.ran /\ o.out = e.out) => o.start = (IF op.start = <<>> THEN Get(m, s) ELSE op.start))
    \cup If("recorded", (op.t = "optimize" /\ e.ran /\ e.out = "ok") => o.lastf = op.run.f /\ o.same = 1)
    \cup If("updates", e.ran => o.upd = 1)
    \cup If("observers", o.obs = 0)
RECURSIVE Within(_, _)
Within(p, q) == IF p = <<>> THEN TRUE ELSE IF q = <<>> THEN FALSE
                ELSE IF Head(p) = Head(q) THEN Within(Tail(p), Tail(q)) ELSE Within(p, Tail(q))
\* the reports: the objective of every update, and the last one again at the end
Front(q) == SubSeq(q, 1, Len(q) - 1)
Reported1(w, r, o) ==
    \/ o = <<>> /\ Len(r) <= 1
    \/ IF w = 0 THEN r = Append(o, o[Len(o)])
       ELSE r # <<>> /\ r[Len(r)] = o[Len(o)] /\ Within(SubSeq(r, 1, Len(r) - 1), o)
\* the last update can be the one that writes the result
Reported(w, r, o) == Reported1(w, r, o) \/ (o # <<>> /\ Reported1(w, r, Front(o)))
Pair(a, b) ==
    If("same", a.out = b.out /\ a.vals = b.vals /\ a.log = b.log /\ a.rnd = b.rnd /\ a.runs = b.runs /\ a.lastf = b.lastf
               /\ a.counts = b.counts)
    \cup If("reports", \A k \in DOMAIN b.reports : Reported(b.weak, b.reports[k].r, b.reports[k].o))
\* one side of a run of the real optimizers; objective values and numbers are ranks
Real(op, o) ==
    If("out", o.out \in Range(op.may))
    \cup If("fixed", \A i \in Range(op.fixed) : o.end[i] = o.before[i])
    \cup If("values", o.out = "ok" => (IF o.got = <<>> THEN o.end = o.before
                                       ELSE \E r \in Best(o.got) : o.end = r.x))
    \cup If("values", op.unknown = 1 => o.end = o.before)   \* no optimizer of this name
    \cup If("objective", \A r \in Range(o.got) : r.obj < INF => r.f = r.obj)
    \cup If("more", o.more = Len(o.got))
    \cup If("observers", o.obs = 0)
Wrong(m, s, ev) ==
    IF ev.err # "" THEN {"err"}
    ELSE IF ev.op.t = "real" THEN
        Real(ev.op, ev.a) \cup (IF ev.twin = 1 THEN Real(ev.op, ev.b) \cup Pair(ev.a, ev.b) ELSE {})
    ELSE IF IsRun(ev.op) THEN
        LET e == Expect(m, s, ev.op)
        IN Side(m, s, ev.op, e, ev.a) \cup (IF ev.twin = 1 THEN Side(m, s, ev.op, e, ev.b) \cup Pair(ev.a, ev.b) ELSE {})
    ELSE {}
After(m, s, ev) ==
    IF ev.op.t = "real" THEN s
    ELSE IF IsRun(ev.op) THEN
        LET e == Expect(m, s, ev.op)
        IN [s EXCEPT !.v = ev.a.vals, !.runs = @ + e.more, !.upd = IF e.ran THEN TRUE ELSE @]
    ELSE IF ev.op.t = "assign" THEN [s EXCEPT !.v = ev.op.x]
    ELSE Edit(m, s, ev.op)
Step ==
    /\ l <= Len(Traces[tid].evs)
    /\ LET m == Traces[tid]
           ev == m.evs[l]
           w == Wrong(m, st, ev)
       IN /\ st' = After(m, st, ev)
          /\ l' = IF w = {} THEN l + 1 ELSE 1000000
          /\ w # {} => PrintT(<<"MISMATCH", tid, l, w, "ok">>)
    /\ UNCHANGED tid
Spec == Init /\ [][Step]_vars
View == <<tid, l>>
=============================================================================
