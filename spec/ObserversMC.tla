---------------------------- MODULE ObserversMC ----------------------------
(* All registrations of up to MAXR callbacks on one subject; every transition   *)
(* is written out as a script for the real code.                                *)
EXTENDS Observers, Json
CONSTANTS MAXR, OBS, CBS, PRIOS
VARIABLES st, hist
vars == <<st, hist>>
Init == st = Start(1, OBS) /\ hist = <<>>
NotifyAll == <<[t |-> "notify", s |-> 1, w |-> 0, min |-> NOMIN], [t |-> "notify", s |-> 1, w |-> 0, min |-> 0]>>
Do(op) == /\ st' = Effect(st, op)
          /\ hist' = Append(hist, op)
          /\ PrintT("SCRIPT " \o ToJson(hist' \o NotifyAll))
Next ==
    \/ \E o \in st.alive : \E c \in CBS : \E p \in PRIOS :
          /\ Len(st.regs[1]) < MAXR
          /\ Do([t |-> "add", s |-> 1, o |-> o, c |-> c, p |-> p])
    \/ \E o \in st.alive : \E c \in CBS : \E p \in PRIOS :
          /\ Len(st.regs[1]) < MAXR \/ \E x \in Range(st.regs[1]) : x.o = o /\ x.c = c
          /\ Do([t |-> "prio", s |-> 1, o |-> o, c |-> c, p |-> p])
    \/ \E o \in st.alive : Do([t |-> "remove", s |-> 1, o |-> o])
    \/ \E o \in st.alive : \E c \in CBS : Do([t |-> "removecb", s |-> 1, o |-> o, c |-> c])
    \/ \E o \in st.alive : Do([t |-> "kill", o |-> o])
    \/ \E on \in {0, 1} : Do([t |-> "updates", s |-> 1, on |-> on])
Spec == Init /\ [][Next]_vars
View == st
Sorted == \A i, j \in DOMAIN st.regs[1] : i < j => st.regs[1][i].p >= st.regs[1][j].p
NoDead == \A r \in Range(st.regs[1]) : r.o \in st.alive
\* a minimum keeps exactly those above it, in the same order
MinOK == \A m \in PRIOS : Called(st, 1, m) = Filter(Called(st, 1, NOMIN), LAMBDA x : x.p > m)
\* equal priorities: first come, first called; an added one is called, a removed one is not
Laws == \A o \in st.alive : \A c \in CBS : \A p \in PRIOS :
    LET s2 == Effect(st, [t |-> "add", s |-> 1, o |-> o, c |-> c, p |-> p])
        rs == s2.regs[1]
        s3 == Effect(st, [t |-> "prio", s |-> 1, o |-> o, c |-> c, p |-> p])
    IN /\ \E k \in DOMAIN rs : /\ rs[k] = [p |-> p, o |-> o, c |-> c]
                               /\ \A j \in (k + 1)..Len(rs) : rs[j].p < p
                               /\ [i \in 1..(Len(rs) - 1) |-> IF i < k THEN rs[i] ELSE rs[i + 1]] = st.regs[1]
       /\ Cardinality({k \in DOMAIN s3.regs[1] : s3.regs[1][k].o = o /\ s3.regs[1][k].c = c}) = 1
       /\ RemCb(rs, o, c) = RemCb(st.regs[1], o, c)
Inv == Sorted /\ NoDead /\ MinOK /\ Laws
=============================================================================
