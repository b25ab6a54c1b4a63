------------------------------- MODULE CacheMC -------------------------------
(* The algorithm of the implementation (flags set by observers, which are        *)
(* registered while something needs them) next to the abstract cache: it has to   *)
(* answer as the abstract one allows.  Every transition is written out as a       *)
(* script for the real code.                                                      *)
EXTENDS Cache, Json
CONSTANTS LIMIT, VALS, FULL
VARIABLES st, alg, bad, hist
vars == <<st, alg, bad, hist>>
\* 1: an array of two, 2: a view of its first element, 3: another array, 4: a number, 5: not cachable
objs == <<[kind |-> "obs", cells |-> <<1, 2>>, ol |-> 1, anc |-> <<>>],
          [kind |-> "obs", cells |-> <<1>>, ol |-> 1, anc |-> <<>>],
          [kind |-> "obs", cells |-> <<3>>, ol |-> 3, anc |-> <<>>],
          [kind |-> "atom", cells |-> <<4>>, ol |-> 0, anc |-> <<>>],
          [kind |-> "no", cells |-> <<5>>, ol |-> 0, anc |-> <<>>]>>
caches == <<[limit |-> LIMIT, ign |-> <<>>, force |-> <<"z">>, names |-> <<"x", "y", "z">>, order |-> <<"x", "y", "z">>,
             defs |-> <<0, 0, 0>>, mode |-> "plain", owner |-> 0]>>
call(pos, kw) == [t |-> "call", c |-> 1, pos |-> pos, kw |-> kw, nest |-> <<>>]
Calls == {call(<<1, 3>>, <<>>), call(<<2, 3>>, <<>>), call(<<3, 3>>, <<>>), call(<<3>>, <<[k |-> "y", o |-> 4]>>)}
         \cup (IF FULL THEN {call(<<3, 4>>, <<>>), call(<<2, 1>>, <<>>), call(<<3, 5>>, <<>>), call(<<3, 3>>, <<[k |-> "z", o |-> 4]>>)} ELSE {})
Nested == IF FULL THEN {} ELSE
    {[call(<<3, 3>>, <<>>) EXCEPT !.nest = <<[op |-> call(<<2, 3>>, <<>>), sw |-> s]>>] : s \in {0, 1}}

\* alg: [ents: Seq([key, chg, snap]), reg: the observer lists on which it is registered]
Ols(e) == {objs[e.key[i].o].ol : i \in DOMAIN e.key} \ {0}
AEntry(a, key) == {i \in DOMAIN a.ents : a.ents[i].key = key}
\* what is no longer needed by the remaining entries is not watched any more
AStore(a, key, e) ==
    IF AEntry(a, key) # {} THEN [a EXCEPT !.ents[CHOOSE i \in AEntry(a, key) : TRUE] = e]
    ELSE LET rest == IF Len(a.ents) = LIMIT THEN Tail(a.ents) ELSE a.ents
             gone == IF Len(a.ents) = LIMIT THEN Ols(Head(a.ents)) ELSE {}
             kept == a.reg \ {l \in gone : \A i \in DOMAIN rest : l \notin Ols(rest[i])}
         IN [ents |-> rest \o <<e>>, reg |-> kept \cup Ols(e)]
ANotify(a, l) == IF l \notin a.reg THEN a
                 ELSE [a EXCEPT !.ents = [i \in DOMAIN @ |-> IF l \in Ols(@[i]) THEN [@[i] EXCEPT !.chg = TRUE] ELSE @[i]]]

\* run the algorithm: [alg, rec]
RECURSIVE Run(_, _)
Run(a, op) ==
    LET cc == caches[1]
        key == Key(cc, op)
        direct == ~st.on[1] \/ Forced(objs, cc, op) \/ ~Cachable(objs, key)
        hit == ~direct /\ AEntry(a, key) # {} /\ ~a.ents[CHOOSE i \in AEntry(a, key) : TRUE].chg
        ent == a.ents[CHOOSE i \in AEntry(a, key) : TRUE]
        n == IF op.nest = <<>> THEN [alg |-> a, rec |-> <<>>]
             ELSE LET r == Run(a, op.nest[1].op) IN [alg |-> r.alg, rec |-> <<r.rec>>]
        fails == Fails(objs, cc, st, op) \/ (n.rec # <<>> /\ n.rec[1].out # "ok" /\ op.nest[1].sw = 0)
        new == [key |-> key, chg |-> FALSE, snap |-> Value(objs, cc, st, op)]
    IN IF hit THEN [alg |-> a, rec |-> [op |-> op, runs |-> <<>>, out |-> "ok", val |-> ent.snap]]
       ELSE [alg |-> IF direct THEN n.alg ELSE IF fails THEN [ents |-> <<>>, reg |-> {}] ELSE AStore(n.alg, key, new),
             rec |-> [op |-> op, runs |-> <<[nested |-> n.rec]>>, out |-> IF fails THEN "BadValue" ELSE "ok",
                      val |-> IF fails THEN <<>> ELSE Value(objs, cc, st, op)]]

Init == /\ st = Start(<<0, 0, 0, 1, 0>>, 1) /\ alg = [ents |-> <<>>, reg |-> {}] /\ bad = {} /\ hist = <<>>
Log(op) == hist' = Append(hist, op) /\ PrintT("SCRIPT " \o ToJson(hist'))
DoCall == \E op \in Calls \cup Nested :
    LET r == Run(alg, op)
        e == Exec(objs, caches, st, r.rec, {})
    IN /\ alg' = r.alg /\ st' = e.st /\ bad' = e.bad /\ Log(op)
DoWrite == \E o \in {1, 2, 3} \cup (IF FULL THEN {5} ELSE {}) : \E v \in VALS \cup (IF o = 3 THEN {BAD} ELSE {}) :
    LET op == [t |-> "write", o |-> o, how |-> IF o = 1 THEN "one" ELSE "set", i |-> 1, vals |-> <<v>>, os |-> <<o>>,
               ws |-> <<[c |-> IF o = 1 THEN 2 ELSE objs[o].cells[1], v |-> v]>>]
        e == Apply(objs, caches, st, op, <<>>)
    IN /\ st' = e.st /\ bad' = e.bad /\ alg' = ANotify(alg, objs[o].ol) /\ Log(op)
DoSwitch == \E t \in {"reset", "disable", "enable"} :
    LET op == [t |-> t, group |-> 0, cs |-> <<1>>]
        e == Apply(objs, caches, st, op, <<>>)
    IN /\ st' = e.st /\ bad' = e.bad /\ alg' = (IF t = "enable" THEN alg ELSE [ents |-> <<>>, reg |-> {}]) /\ Log(op)
Next == DoCall \/ DoWrite \/ DoSwitch
Spec == Init /\ [][Next]_vars
View == <<st, alg, bad>>

Accepted == bad = {}
SameKeys == [i \in 1..Len(alg.ents) |-> alg.ents[i].key] = [i \in 1..Len(st.ents[1]) |-> st.ents[1][i].key]
\* a result which is not marked as changed is what the function would return now
Fresh == \A i \in DOMAIN alg.ents : ~alg.ents[i].chg =>
            \A j \in DOMAIN alg.ents[i].key : LET k == alg.ents[i].key[j]
                IN alg.ents[i].snap[IF k.k = "" THEN j ELSE IF k.k = "y" THEN 2 ELSE 3] = Contents(objs, st, k.o)
Watched == alg.reg = UNION {Ols(alg.ents[i]) : i \in DOMAIN alg.ents}
Bounded == Len(alg.ents) <= LIMIT /\ \A i, j \in DOMAIN alg.ents : alg.ents[i].key = alg.ents[j].key => i = j
Inv == Accepted /\ SameKeys /\ Fresh /\ Watched /\ Bounded
=============================================================================
