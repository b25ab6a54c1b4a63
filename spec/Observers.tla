----------------------------- MODULE Observers -----------------------------
(* Objects that notify registered callbacks.  A registration is                *)
(* [p |-> priority, o |-> observer, c |-> callback]; regs[s] lists the          *)
(* registrations of subject s in the order in which they are called.           *)
EXTENDS PySeq

NOMIN == -1000000                           \* no minimum priority given

\* behind all registrations with at least this priority
AddReg(rs, r) ==
    LET k == Len(Filter(rs, LAMBDA x : x.p >= r.p))
    IN SubSeq(rs, 1, k) \o <<r>> \o SubSeq(rs, k + 1, Len(rs))
RemObs(rs, o) == Filter(rs, LAMBDA x : x.o # o)
RemCb(rs, o, c) == Filter(rs, LAMBDA x : ~(x.o = o /\ x.c = c))
Living(st, rs) == Filter(rs, LAMBDA x : x.o \in st.alive)
\* what a notification has to call
Called(st, s, min) == Filter(Living(st, st.regs[s]), LAMBDA x : min = NOMIN \/ x.p > min)

Start(n, obs) == [regs |-> [s \in 1..n |-> <<>>], upd |-> [s \in 1..n |-> TRUE], alive |-> obs]

\* everything but notify
Effect(st, op) ==
    CASE op.t = "add" -> [st EXCEPT !.regs[op.s] = AddReg(@, [p |-> op.p, o |-> op.o, c |-> op.c])]
      [] op.t = "remove" -> [st EXCEPT !.regs[op.s] = RemObs(@, op.o)]
      [] op.t = "removecb" -> [st EXCEPT !.regs[op.s] = RemCb(@, op.o, op.c)]
      [] op.t = "prio" -> [st EXCEPT !.regs[op.s] = AddReg(RemCb(@, op.o, op.c), [p |-> op.p, o |-> op.o, c |-> op.c])]
      [] op.t = "updates" -> [st EXCEPT !.upd[op.s] = (op.on = 1)]
      [] op.t = "kill" -> [st EXCEPT !.alive = @ \ {op.o}, !.regs = [s \in DOMAIN @ |-> RemObs(@[s], op.o)]]
      [] OTHER -> st

(* A recorded notification is a log: <<call, ..., ret, call, ..., ret, ...>> where the   *)
(* dots are the operations the callback performed itself, each <<op, (its log), end>>.    *)
(* Callbacks removed while the notification is under way may or may not be called.        *)
RECURSIVE RunCalls(_, _, _, _, _)
RECURSIVE RunBody(_, _, _)
RECURSIVE RunNotify(_, _, _, _)
\* results: [ok, st, i, raised]: i is the next position of the log
RunNotify(st, op, log, i) ==
    IF ~st.upd[op.s] THEN [ok |-> TRUE, st |-> st, i |-> i, raised |-> FALSE]
    ELSE RunCalls(st, op, Called(st, op.s, op.min), log, i)
RunCalls(st, op, todo, log, i) ==
    IF todo = <<>> THEN [ok |-> TRUE, st |-> st, i |-> i, raised |-> FALSE]
    ELSE LET r == Head(todo)
             there == r \in Range(Living(st, st.regs[op.s]))
             which == IF op.w = 0 THEN op.s ELSE op.w
             hit == i <= Len(log) /\ log[i].e = "call" /\ log[i].c = r.c /\ log[i].s = op.s /\ log[i].w = which
         IN IF hit THEN
                LET b == RunBody(st, log, i + 1)
                IN IF ~b.ok \/ b.raised THEN b ELSE RunCalls(b.st, op, Tail(todo), log, b.i)
            ELSE IF ~there THEN RunCalls(st, op, Tail(todo), log, i)
            ELSE [ok |-> FALSE, st |-> st, i |-> i, raised |-> FALSE]
RunBody(st, log, i) ==
    IF i > Len(log) THEN [ok |-> FALSE, st |-> st, i |-> i, raised |-> FALSE]
    ELSE CASE log[i].e = "ret" -> [ok |-> TRUE, st |-> st, i |-> i + 1, raised |-> FALSE]
           [] log[i].e = "raise" -> [ok |-> TRUE, st |-> st, i |-> i + 1, raised |-> TRUE]
           [] log[i].e = "op" ->
                LET op == log[i].op
                    r == IF op.t = "notify" THEN RunNotify(st, op, log, i + 1)
                         ELSE [ok |-> TRUE, st |-> Effect(st, op), i |-> i + 1, raised |-> FALSE]
                IN IF ~r.ok \/ r.raised THEN r
                   ELSE IF r.i <= Len(log) /\ log[r.i].e = "end" THEN RunBody(r.st, log, r.i + 1)
                   ELSE [ok |-> FALSE, st |-> r.st, i |-> r.i, raised |-> FALSE]
           [] OTHER -> [ok |-> FALSE, st |-> st, i |-> i, raised |-> FALSE]
=============================================================================
