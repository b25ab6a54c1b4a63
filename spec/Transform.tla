----------------------------- MODULE Transform -----------------------------
(* Transformations.  A key is [c |-> class, l |-> lower, u |-> upper] (bounds    *)
(* only for bounded ones, else 0).  Variables 1..n hold instances; the pool      *)
(* gives one object per key: objs maps living keys to object ids.                *)
EXTENDS PySeq

Bounded == {"Logistic", "SubLogistic"}
Free == {"Logexp", "Exponent", "NegativeLogexp", "NegativeExponent", "Square", "Own", "SubLogexp"}
NoKey == [c |-> "", l |-> 0, u |-> 0]

\* vars: variable -> [key, obj] ; next: next unused object id; kept: object ids of parameterless classes
Start(n) == [vars |-> [v \in 1..n |-> [key |-> NoKey, obj |-> 0]], kept |-> <<>>, next |-> 1]
Living(st) == {st.vars[v].key : v \in DOMAIN st.vars} \ {NoKey}
ObjOf(st, key) ==
    IF \E v \in DOMAIN st.vars : st.vars[v].key = key THEN st.vars[CHOOSE v \in DOMAIN st.vars : st.vars[v].key = key].obj
    ELSE IF key.c \in Free /\ \E k \in DOMAIN st.kept : st.kept[k].c = key.c THEN st.kept[CHOOSE k \in DOMAIN st.kept : st.kept[k].c = key.c].o
    ELSE 0
\* variable v gets an instance of key
Make(st, v, key) ==
    LET o == ObjOf(st, key)
        id == IF o = 0 THEN st.next ELSE o
        s == [st EXCEPT !.vars[v] = [key |-> key, obj |-> id], !.next = IF o = 0 THEN @ + 1 ELSE @]
    IN IF key.c \in Free /\ o = 0 THEN [s EXCEPT !.kept = Append(@, [c |-> key.c, o |-> id])] ELSE s
Effect(st, op) ==
    CASE op.t = "make" -> IF op.key.c \in Bounded /\ op.key.l >= op.key.u THEN st ELSE Make(st, op.v, op.key)
      [] op.t = "drop" -> [st EXCEPT !.vars[op.v] = [key |-> NoKey, obj |-> 0]]
      \* copying, pickling, constraining a parameter and taking it from there: the same object
      [] op.t \in {"copy", "deepcopy", "pickle", "param", "alias"} ->
            IF st.vars[op.w].obj = 0 THEN st ELSE [st EXCEPT !.vars[op.v] = st.vars[op.w]]
      \* pickled, dropped everywhere, and loaded again: equal to what was there
      [] op.t = "reload" ->
            IF st.vars[op.w].obj = 0 THEN st
            ELSE LET key == st.vars[op.w].key
                     s == [st EXCEPT !.vars = [v \in DOMAIN @ |-> IF @[v].key = key THEN [key |-> NoKey, obj |-> 0] ELSE @[v]]]
                 IN Make(s, op.v, key)
      [] OTHER -> st
Out(st, op) == IF op.t = "make" /\ op.key.c \in Bounded /\ op.key.l >= op.key.u THEN "refused" ELSE "ok"
Same(st, v, w) == st.vars[v].obj # 0 /\ st.vars[v].obj = st.vars[w].obj

-----------------------------------------------------------------------------
(* Values.  For a transformation the harness records, for points x_1 < ... < x_n of *)
(* optimizer space (in thousandths), what the real maps give there, as signs and as *)
(* errors in units of what rounding explains.                                       *)
Side(c) == IF c \in {"NegativeLogexp", "NegativeExponent"} THEN "neg" ELSE IF c \in Bounded THEN "bounded" ELSE "pos"
\* where a map is saturated, i.e. does not have to be strict and invertible
Sat(c, x) == CASE c \in {"Exponent", "NegativeExponent"} -> Abs(x) > 35990
               [] c \in {"Logexp", "NegativeLogexp", "SubLogexp"} -> x < -700000
               [] c = "Square" -> x < 1
               [] c \in Bounded -> Abs(x) > 15000
               [] OTHER -> FALSE
\* which of the three: does the square fold the negative half over
Folded(c, x) == c = "Square" /\ x < 0
\* p: [x, lo |-> sign of f(x) against the lower end, hi |-> same, upper end, inv |-> error of finv(f(x)), slope |-> error of the gradient factor, ...]
PointWrong(c, p) ==
    (IF p.lo < 0 \/ p.hi > 0 THEN {"domain"} ELSE {})
    \cup (IF ~Sat(c, p.x) /\ (p.lo = 0 \/ p.hi = 0) THEN {"domain"} ELSE {})
    \cup (IF ~Sat(c, p.x) /\ p.inv > 1 THEN {"inverse"} ELSE {})
    \cup (IF ~Sat(c, p.x) /\ p.back > 1 THEN {"inverse"} ELSE {})
    \cup (IF ~Sat(c, p.x) /\ p.slope > 1 THEN {"slope"} ELSE {})
    \cup (IF ~Sat(c, p.x) /\ p.jac > 1 THEN {"logjacobian"} ELSE {})
    \cup (IF p.kept # 1 THEN {"initialize"} ELSE {})
Monotone(c, ps, cmp) ==
    LET use == {k \in 1..(Len(ps) - 1) : ~Folded(c, ps[k].x)}
        strict == {k \in use : ~Sat(c, ps[k].x) /\ ~Sat(c, ps[k + 1].x)}
    IN \E d \in {-1, 1} : (\A k \in use : cmp[k] \in {0, d}) /\ (\A k \in strict : cmp[k] = d)
=============================================================================
