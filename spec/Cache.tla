-------------------------------- MODULE Cache --------------------------------
(* Functions whose results are cached until one of their arguments announces a   *)
(* change.  Objects occupy cells (a view occupies cells of its array, a node      *)
(* those of its leaves); the value of a call is determined by the contents of     *)
(* the arguments bound to the parameter names.                                    *)
(*  objs[o]: [kind |-> "obs" | "atom" | "no", cells |-> Seq(cell), ol |-> observer list *)
(*            id, anc |-> Seq(object)]   (anc: nodes which contain a leaf)         *)
(*  caches[c]: [limit, ign |-> Seq(position), force |-> Seq(name), names |-> Seq(name), *)
(*              defs |-> Seq(object, 0: none), mode |-> "plain" | "this" | "bound",    *)
(*              owner |-> object, grp |-> group of caches switched together]          *)
EXTENDS PySeq

BAD == 13                                   \* contents for which the functions raise

\* object bound to each parameter, 0 where nothing is given; a bound method gets its owner first
Bind(cc, pos, kw) ==
    LET p == IF cc.mode = "bound" THEN <<cc.owner>> \o pos ELSE pos
    IN [i \in 1..Len(cc.names) |->
          IF i <= Len(p) THEN p[i]
          ELSE IF \E j \in DOMAIN kw : kw[j].k = cc.names[i]
               THEN kw[CHOOSE j \in DOMAIN kw : kw[j].k = cc.names[i]].o
               ELSE cc.defs[i]]
Contents(objs, st, o) == IF o = 0 THEN <<>> ELSE [i \in 1..Len(objs[o].cells) |-> st.cells[objs[o].cells[i]]]
Value(objs, cc, st, op) == LET b == Bind(cc, op.pos, op.kw) IN [i \in 1..Len(b) |-> Contents(objs, st, b[i])]

\* the names of kw in order
SortKw(cc, kw) == Filter([i \in 1..Len(cc.order) |->
                            IF \E j \in DOMAIN kw : kw[j].k = cc.order[i]
                            THEN kw[CHOOSE j \in DOMAIN kw : kw[j].k = cc.order[i]]
                            ELSE [k |-> "", o |-> 0]], LAMBDA x : x.o # 0)
\* what tells calls apart: the arguments which are not ignored, with their names if given by name
Args(cc, op) ==
    IF cc.mode = "this" THEN LET b == Bind(cc, op.pos, op.kw) IN [i \in 1..Len(b) |-> [k |-> "", o |-> b[i]]]
    ELSE [i \in 1..Len(op.pos) |-> [k |-> "", o |-> op.pos[i]]] \o SortKw(cc, op.kw)
Key(cc, op) ==
    LET a == Args(cc, op)
        keep == AscSeq({i \in DOMAIN a : (i - 1) \notin Range(cc.ign)})
    IN [i \in 1..Len(keep) |-> a[keep[i]]]
\* the names of ignored parameters
Ignored(cc, op) ==
    LET a == Args(cc, op)
        shift == IF cc.mode = "bound" THEN 1 ELSE 0
        At(i) == IF i <= Len(a) /\ a[i].k # "" THEN a[i].k ELSE IF i + shift <= Len(cc.names) THEN cc.names[i + shift] ELSE ""
    IN {At(j + 1) : j \in Range(cc.ign)}
Forced(objs, cc, op) ==
    IF cc.mode = "this" THEN
        LET b == Bind(cc, op.pos, op.kw)
        IN \E i \in DOMAIN b : cc.names[i] \in Range(cc.force) /\ objs[b[i]].kind # "none" /\ b[i] # cc.defs[i]
    ELSE \E j \in DOMAIN op.kw : op.kw[j].k \in Range(cc.force) /\ objs[op.kw[j].o].kind # "none"
Cachable(objs, key) == \A i \in DOMAIN key : objs[key[i].o].kind # "no"
Snap(objs, st, key) == [i \in 1..Len(key) |-> Contents(objs, st, key[i].o)]
\* does the function itself raise
Fails(objs, cc, st, op) ==
    LET b == Bind(cc, op.pos, op.kw)
    IN \E i \in DOMAIN b : cc.names[i] \notin Ignored(cc, op) /\ BAD \in Range(Contents(objs, st, b[i]))

EntryOf(st, c, key) == {i \in DOMAIN st.ents[c] : st.ents[c][i].key = key}
\* the new entry displaces the oldest one, a known one stays where it is
Store(cc, st, c, key, e) ==
    IF EntryOf(st, c, key) # {} THEN [st EXCEPT !.ents[c][CHOOSE i \in EntryOf(st, c, key) : TRUE] = e]
    ELSE [st EXCEPT !.ents[c] = (IF Len(@) = cc.limit THEN Tail(@) ELSE @) \o <<e>>]

(* A recorded call: [op, runs |-> Seq([nested |-> Seq(recorded call)]), out, val].     *)
(* runs: how often the function itself was executed.  The result: [st, bad] with the   *)
(* clauses which the record breaks.                                                    *)
RECURSIVE Exec(_, _, _, _, _)
RECURSIVE ExecAll(_, _, _, _, _)
ExecAll(objs, caches, st, recs, bad) ==
    IF recs = <<>> THEN [st |-> st, bad |-> bad]
    ELSE LET r == Exec(objs, caches, st, Head(recs), bad)
         IN ExecAll(objs, caches, r.st, Tail(recs), r.bad)
Same(cc, op, v, w) == Len(v) = Len(w) /\ \A i \in DOMAIN v : cc.names[i] \in Ignored(cc, op) \/ v[i] = w[i]
Exec(objs, caches, st, rec, bad0) ==
    LET op == rec.op
        c == op.c
        cc == caches[c]
        key == Key(cc, op)
        direct == ~st.on[c] \/ Forced(objs, cc, op) \/ ~Cachable(objs, key)
        hit == EntryOf(st, c, key)
        known == ~direct /\ hit # {}
        ent == st.ents[c][CHOOSE i \in hit : TRUE]
        same == known /\ ent.snap = Snap(objs, st, key)
        n == Len(rec.runs)
        wrongruns == IF same THEN (IF ent.maybe THEN n > 1 ELSE n # 0) ELSE n # 1
        nest == IF n = 0 THEN [st |-> st, bad |-> {}] ELSE ExecAll(objs, caches, st, rec.runs[1].nested, {})
        \* a nested call which was not guarded makes this one fail
        nestfail == n > 0 /\ \E i \in DOMAIN rec.runs[1].nested : rec.runs[1].nested[i].out # "ok" /\ op.nest[i].sw = 0
        fails == Fails(objs, cc, st, op) \/ nestfail
        s1 == nest.st
        s2 == IF n = 0 \/ direct THEN s1
              ELSE IF fails THEN [s1 EXCEPT !.ents[c] = <<>>]
              ELSE Store(cc, s1, c, key, [key |-> key, snap |-> Snap(objs, s1, key), maybe |-> FALSE])
        bad == bad0 \cup nest.bad
               \cup (IF wrongruns THEN {"runs"} ELSE {})
               \cup (IF (rec.out = "ok") = fails \/ rec.out \notin {"ok", "BadValue"} THEN {"out"} ELSE {})
               \cup (IF rec.out = "ok" /\ ~Same(cc, op, rec.val, Value(objs, cc, st, op)) THEN {"val"} ELSE {})
    IN [st |-> s2, bad |-> bad]

\* an object was written, and it and the nodes above told their observers
Lists(objs, o) == {objs[o].ol} \cup {objs[a].ol : a \in Range(objs[o].anc)}
Touch(objs, st, os) ==
    LET ls == UNION {Lists(objs, o) : o \in os} \ {0}
    IN [st EXCEPT !.ents = [c \in DOMAIN @ |-> [i \in DOMAIN @[c] |->
           LET e == @[c][i]
           IN IF \E j \in DOMAIN e.key : objs[e.key[j].o].ol \in ls THEN [e EXCEPT !.maybe = TRUE] ELSE e]]]

Start(cells, n) == [cells |-> cells, ents |-> [c \in 1..n |-> <<>>], on |-> [c \in 1..n |-> TRUE]]
Clear(st, cs) == [st EXCEPT !.ents = [c \in DOMAIN @ |-> IF c \in cs THEN <<>> ELSE @[c]]]
Switch(st, cs, b) == [st EXCEPT !.on = [c \in DOMAIN @ |-> IF c \in cs THEN b ELSE @[c]]]
SetCells(st, ws) == [st EXCEPT !.cells = [x \in DOMAIN @ |->
    IF \E i \in DOMAIN ws : ws[i].c = x THEN ws[CHOOSE i \in DOMAIN ws : ws[i].c = x].v ELSE @[x]]]

\* calls made while a change is being announced, which may take several announcements
RECURSIVE InWrite(_, _, _, _, _, _)
InWrite(objs, caches, st, os, recs, bad) ==
    IF recs = <<>> THEN [st |-> Touch(objs, st, os), bad |-> bad]
    ELSE LET r == Exec(objs, caches, Touch(objs, st, os), Head(recs), bad)
         IN InWrite(objs, caches, r.st, os, Tail(recs), r.bad)

\* everything but calls; inner: the calls which callbacks made meanwhile
Apply(objs, caches, st, op, inner) ==
    CASE op.t = "write" ->
            InWrite(objs, caches, SetCells(st, op.ws), Range(op.os), inner, {})
      [] op.t = "reset" -> [st |-> Clear(st, Range(op.cs)), bad |-> {}]
      [] op.t = "disable" -> [st |-> Switch(Clear(st, Range(op.cs)), Range(op.cs), FALSE), bad |-> {}]
      [] op.t = "enable" -> [st |-> Switch(st, Range(op.cs), TRUE), bad |-> {}]
      [] op.t = "copy" -> [st |-> Switch(Clear(SetCells(st, op.ws), Range(op.cs)), Range(op.cs), TRUE), bad |-> {}]
      [] OTHER -> [st |-> st, bad |-> {}]

\* observers left behind: registered although nothing which is cached needs it
Held(objs, st, c, o) == \E i \in DOMAIN st.ents[c] : \E j \in DOMAIN st.ents[c][i].key :
                            objs[st.ents[c][i].key[j].o].ol = objs[o].ol /\ objs[o].ol # 0
Dangling(objs, st, regs) == \E i \in DOMAIN regs : ~Held(objs, st, regs[i].c, regs[i].o)
=============================================================================
