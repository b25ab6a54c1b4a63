----------------------------- MODULE TreeTrace -----------------------------
(* Checks traces recorded from the real code against the specification Tree:   *)
(* every recorded step has to be the step Tree!Apply allows, with the outcome,  *)
(* the result, the callbacks and the observations it requires.                  *)
EXTENDS Tree, Json, IOUtils

Input == JsonDeserialize(IOEnv.TRACE_FILE)     \* [check |-> clauses to decide, traces |-> ...]
Check == Range(Input.check)
Traces == Input.traces
Reserved == Range(Input.reserved)              \* names that are attributes of the classes
VARIABLES tid, l, s
vars == <<tid, l, s>>

Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = Init0(Traces[tid].pool)
Pairs(obs, n) == DOMAIN obs = 1..n

-----------------------------------------------------------------------------
(* results of queries *)
StrictDom(c, v) == CASE c \in {"pos", "exp", "sq"} -> v > 0
                     [] c \in {"neg", "nexp"} -> v < 0
                     [] c \in DOMAIN Bounds -> InDom(c, v)
                     [] OTHER -> TRUE
RetOK(ev, s1, r) ==
    IF r.out # "ok" THEN TRUE
    ELSE CASE ev.op.t = "getopt" ->
              LET fr == Free(s1, ev.op.o)
              IN /\ Len(ev.ret) = Len(fr)
                 /\ \A i \in DOMAIN fr :
                      LET c == s1.con[fr[i][1]][fr[i][2]]
                          v == s1.val[fr[i][1]][fr[i][2]]
                      IN StrictDom(c, v) => ev.ret[i][Key(c)] = v
           [] ev.op.t = "optgrad" ->
              LET fr == Free(s1, ev.op.o)
              IN /\ Len(ev.ret) = Len(fr)
                 /\ \A i \in DOMAIN fr :
                      LET c == s1.con[fr[i][1]][fr[i][2]]
                          v == s1.val[fr[i][1]][fr[i][2]]
                          g == s1.grd[fr[i][1]][fr[i][2]]
                      IN (StrictDom(c, v) /\ v >= -12 /\ v <= 12 /\ g # ANY) => ev.ret[i][Key(c)][v + 13] = g
           [] OTHER -> ev.ret = r.ret

(* callbacks *)
Called(ev) == {ev.pc[i].o : i \in DOMAIN ev.pc}
Last(ev, o) == CHOOSE i \in DOMAIN ev.pc : ev.pc[i].o = o /\ \A j \in DOMAIN ev.pc : ev.pc[j].o = o => j <= i
PcOK(ev, s1, r) ==
    LET s2 == r.s
        calls == Called(ev)
    IN /\ calls \subseteq Objs(s2)
       /\ ev.op.t # "copy" => \A o \in calls : s2.upd[o]
       /\ ev.op.t = "copy" => \A o \in calls : o > s1.n
       /\ r.need \subseteq calls
       /\ \A o \in r.need : (s2.ini[o] /\ \A x \in Below(s2, o) : s2.upd[x]) => ev.pc[Last(ev, o)].v = Flat(s2, o, s2.val)
       /\ \A o \in r.need : \A c \in r.need : (c # o /\ c \in Below(s2, o)) => Last(ev, c) < Last(ev, o)
       /\ r.exact => /\ calls = r.need
                     /\ \A i \in DOMAIN ev.pc : \A j \in DOMAIN ev.pc : ev.pc[i].o = ev.pc[j].o => i = j
(* observers of single objects: every leaf whose values changed has told its observers the final values; *)
(* an object with updates off tells nobody, and what happens to one hierarchy is not told to others       *)
Told(ev) == {ev.nt[i].o : i \in DOMAIN ev.nt}
LastTold(ev, o) == CHOOSE i \in DOMAIN ev.nt : ev.nt[i].o = o /\ \A j \in DOMAIN ev.nt : ev.nt[j].o = o => j <= i
Touches(s1, op) == IF op.t = "link" THEN Tree(s1, op.p) \cup Tree(s1, op.c)
                   ELSE IF op.t = "unlink" THEN Tree(s1, op.p)
                   ELSE IF "h" \in DOMAIN op THEN Tree(s1, op.h.o) ELSE IF "o" \in DOMAIN op THEN Tree(s1, op.o) ELSE {}
RECURSIVE NtfAll(_, _)
NtfAll(s1, o) == IF o = 0 THEN {} ELSE IF ~s1.upd[o] THEN {} ELSE {o} \cup NtfAll(s1, s1.par[o])
NtOK(ev, s1, r) ==
    LET s2 == r.s
        told == Told(ev)
    IN /\ told \subseteq Objs(s2)
       /\ \A o \in told : o > s1.n \/ s2.upd[o] \/ s1.upd[o]
       /\ ev.op.t \in {"rawset", "rename", "tag", "untag", "updates", "toggle"} \/ ev.op.t = "build"
          \/ \A o \in Objs(s1) : (s1.leaf[o] /\ s1.val[o] # s2.val[o] /\ \A x \in {o} \cup Range(Ancs(s1, o)) : s1.upd[x] /\ s2.upd[x]) =>
               /\ o \in told
               /\ ev.nt[LastTold(ev, o)].v = s2.val[o]
       /\ ev.op.t = "rawset" => told = {}
       /\ (ev.op.t = "set" /\ r.out = "ok" /\ ev.op.h.k \in {"o", "s"} /\ s1.leaf[ev.op.h.o]) =>   \* exactly once, nobody else
             /\ told = NtfAll(s1, ev.op.h.o)
             /\ Len(ev.nt) = Cardinality(told)
       /\ ev.op.t = "copy" => \A o \in told : o > s1.n
       /\ (ev.op.t \notin {"copy", "build"}) => told \subseteq Touches(s1, ev.op)
(* creating and linking runs no callbacks below an uninitialized root *)
QuietOK(ev, s1, r) ==
    (ev.op.t \in {"link", "rename", "noop"} /\ \A o \in Objs(s1) : ~s1.leaf[o] => ~s1.ini[o]) => ev.pc = <<>>

(* names: a relation, the chosen names are taken over *)
RECURSIVE Digits(_)
Digits(w) == w = <<>> \/ (Head(w) >= 48 /\ Head(w) <= 57 /\ Digits(Tail(w)))
Family(w) ==                               \* name without its _number
    LET cut == {k \in 1..Len(w) : w[k] = 95 /\ k < Len(w) /\ Digits(SubSeq(w, k + 1, Len(w)))}
    IN IF cut = {} THEN w ELSE SubSeq(w, 1, (CHOOSE k \in cut : \A j \in cut : j <= k) - 1)
Siblings(s2, o) == IF s2.par[o] = 0 THEN {} ELSE Range(s2.kids[s2.par[o]]) \ {o}
NamesOK(s2, names) ==                      \* s2 has the names before clashes are resolved
    /\ \A o \in Objs(s2) : \A c \in Siblings(s2, o) :
          s2.ini[s2.par[o]] => names[o] # names[c]
    /\ \A o \in Objs(s2) : names[o] # s2.name[o] =>
          /\ s2.par[o] # 0
          /\ Family(names[o]) = Family(s2.name[o])
          /\ \E a \in Siblings(s2, o) \cup {o} : \E b \in Siblings(s2, a) :
                s2.name[a] = s2.name[b] /\ Family(s2.name[a]) = Family(s2.name[o])
\* attributes that stand for the children of o
AttrOK(s2, o, got) ==
    LET kids == Range(s2.kids[o])
        Nm(c) == Adjust(s2.name[c])
        uniq == {c \in kids : \A d \in kids : d # c => Nm(d) # Nm(c)}
        want == {<<Nm(c), c>> : c \in {x \in uniq : Nm(x) \notin Reserved}}
        have == {<<got[i][1], got[i][2]>> : i \in DOMAIN got}
    IN s2.ini[o] =>
          /\ want \subseteq have
          /\ \A h \in have : h[2] \in kids /\ h[1] = Nm(h[2])

ObsOK(f, ev, s2) ==
    LET o == ev.obs[f] IN
    /\ Len(o) = s2.n
    /\ CASE f = "val" -> LET w == Obs(s2, f) IN \A x \in Objs(s2) : s2.ini[x] => o[x] = w[x]
         [] f = "tag" -> LET w == Obs(s2, f) IN
                         \A x \in Objs(s2) : /\ Len(o[x]) = Len(w[x])
                                             /\ \A k \in DOMAIN w[x] : Range(o[x][k]) = w[x][k]
         [] f = "grd" -> LET w == Obs(s2, f) IN
                         \A x \in Objs(s2) : s2.ini[x] =>
                               /\ Len(o[x]) = Len(w[x])
                               /\ \A k \in DOMAIN w[x] : w[x][k] # ANY => o[x][k] = w[x][k]
         [] f = "hname" -> \A x \in Objs(s2) : o[x] = HName(s2, x)
         [] f = "attr" -> \A x \in Objs(s2) : ~s2.leaf[x] => AttrOK(s2, x, o[x])
         [] OTHER -> o = Obs(s2, f)

-----------------------------------------------------------------------------
Wrong(ev, s1, r, s2) ==
    IF ev.err # "" THEN {"err"}
    ELSE (IF ev.out # r.out THEN {"out"} ELSE {})
       \cup (IF ~RetOK(ev, s1, r) THEN {"ret"} ELSE {})
       \cup (IF "pc" \in Check /\ ~PcOK(ev, s1, r) THEN {"pc"} ELSE {})
       \cup (IF "nt" \in Check /\ "nt" \in DOMAIN ev /\ ~NtOK(ev, s1, r) THEN {"nt"} ELSE {})
       \cup (IF "quiet" \in Check /\ ~QuietOK(ev, s1, r) THEN {"quiet"} ELSE {})
       \cup (IF "name" \in DOMAIN ev.obs /\ Len(ev.obs.name) # r.s.n THEN {"name"}
             ELSE IF "name" \in Check /\ "name" \in DOMAIN ev.obs /\ ~NamesOK(r.s, ev.obs.name) THEN {"name"} ELSE {})
       \cup {f \in Check \ {"pc", "name", "quiet", "nt"} : f \in DOMAIN ev.obs /\ ~ObsOK(f, ev, s2)}

Step ==
    /\ l <= Len(Traces[tid].evs)
    /\ LET ev == Traces[tid].evs[l]
           r == Apply(s, ev.op)
           s2 == IF ev.err = "" /\ "name" \in DOMAIN ev.obs /\ Len(ev.obs.name) = r.s.n
                 THEN [r.s EXCEPT !.name = ev.obs.name] ELSE r.s
           w == Wrong(ev, s, r, s2)
       IN /\ s' = s2
          /\ l' = IF w = {} THEN l + 1 ELSE 1000000
          /\ w # {} => PrintT(<<"MISMATCH", tid, l, w, r.out>>)
    /\ UNCHANGED tid
Spec == Init /\ [][Step]_vars
View == <<tid, l>>
=============================================================================
