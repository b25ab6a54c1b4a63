------------------------------ MODULE Optimize ------------------------------
(* Optimizing a model and restarting the optimization.                          *)
(* A model m: values v_i (integers), w_i, k_i: v_i = k_i x for its entry x of    *)
(* the optimizer array.  st = [v, fixed (positions), runs (how many have been     *)
(* recorded), upd].  Objective values are ordered integers; INF and NAN stand for *)
(* the others.                                                                    *)
EXTENDS PySeq
INF == 100000000
NAN == 100000001

Free(m, st) == AscSeq({i \in 1..Len(m.k) : i \notin st.fixed})
Get(m, st) == [j \in 1..Len(Free(m, st)) |-> LET i == Free(m, st)[j] IN st.v[i] \div m.k[i]]
Put(m, st, x) == [i \in 1..Len(st.v) |-> IF i \in st.fixed THEN st.v[i] ELSE m.k[i] * x[IndexOf(Free(m, st), i)]]
Start(m) == [v |-> m.v, fixed |-> {}, runs |-> 0, upd |-> TRUE]

\* the runs among which the result has to be: a sequence of [out, f, x]; an error is out # "ok"
Good(runs) == Filter(runs, LAMBDA r : r.out = "ok")
Rank(f) == IF f = NAN THEN INF ELSE f
Best(runs) == {r \in Range(Good(runs)) : \A q \in Range(Good(runs)) : Rank(r.f) <= Rank(q.f)}
\* how far the restarts get: up to the first error, if not robust
Reached(runs, robust) ==
    IF robust = 1 \/ \A i \in DOMAIN runs : runs[i].out = "ok" THEN runs
    ELSE SubSeq(runs, 1, CHOOSE i \in DOMAIN runs : runs[i].out # "ok" /\ \A j \in 1..(i - 1) : runs[j].out = "ok")

\* what an operation has to lead to: [out, ends (set of values; {} for any which keep the fixed ones), runs, ran]
Expect(m, st, op) ==
    IF Free(m, st) = <<>> THEN [out |-> "ok", ends |-> {st.v}, more |-> 0, ran |-> FALSE]
    ELSE IF op.t = "optimize" THEN
           IF op.run.out = "ok" THEN [out |-> "ok", ends |-> {Put(m, st, op.run.x)}, more |-> 1, ran |-> TRUE]
           ELSE [out |-> op.run.out, ends |-> {}, more |-> 0, ran |-> TRUE]
    ELSE LET reached == Reached(op.runs, op.robust)
             good == Good(reached)
             last == IF reached = <<>> THEN "ok" ELSE reached[Len(reached)].out
         IN IF op.robust = 0 /\ last # "ok" THEN [out |-> last, ends |-> {}, more |-> Len(good), ran |-> TRUE]
            ELSE [out |-> "ok", more |-> Len(good), ran |-> reached # <<>>,
                  ends |-> IF good = <<>> THEN {st.v} ELSE {Put(m, st, r.x) : r \in Best(reached)}]
Keeps(st, v) == Len(v) = Len(st.v) /\ \A i \in st.fixed : v[i] = st.v[i]
\* operations of the user in between
Edit(m, st, op) ==
    CASE op.t = "set" -> IF op.i \in DOMAIN st.v THEN [st EXCEPT !.v[op.i] = op.x] ELSE st
      [] op.t = "fix" -> [st EXCEPT !.fixed = @ \cup {op.i}]
      [] op.t = "unfix" -> [st EXCEPT !.fixed = @ \ {op.i}]
      [] op.t = "updates" -> [st EXCEPT !.upd = (op.on = 1)]
=============================================================================
