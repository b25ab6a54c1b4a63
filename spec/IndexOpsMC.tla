----------------------------- MODULE IndexOpsMC -----------------------------
(* All states of one index set over 0..N-1 with a window and a window of the    *)
(* window: the laws the rest of the library relies on.                          *)
EXTENDS IndexOps
CONSTANTS N, OFF, SIZE, OFF2, SIZE2
VARIABLE objs
U == 0..(N - 1)
W(i) == IF i = 1 THEN U ELSE IF i = 2 THEN 0..(SIZE - 1) ELSE 0..(SIZE2 - 1)
Start == <<[k |-> "op", m |-> Empty], [k |-> "view", b |-> 1, off |-> OFF, size |-> SIZE],
           [k |-> "view", b |-> 2, off |-> OFF2, size |-> SIZE2]>>
Init == objs = Start
MCProps == {"a", "b"}
Step(op) == objs' = Apply(objs, op).objs
Next == \E i \in 1..3 : \E p \in MCProps :
            \/ \E S \in SUBSET W(i) : Step([t |-> "add", o |-> i, p |-> p, ix |-> AscSeq(S)])
            \/ \E S \in SUBSET W(i) : Step([t |-> "remove", o |-> i, p |-> p, ix |-> AscSeq(S)])
            \/ Step([t |-> "del", o |-> i, p |-> p])
            \/ Step([t |-> "clear", o |-> i])
            \/ Step([t |-> "update", o |-> 1, src |-> i, off |-> 0])
Spec == Init /\ [][Next]_objs

Other(i) == IF i = 1 THEN {} ELSE {x \in U : x < Offset(objs, i) \/ x >= Offset(objs, i) + Cardinality(W(i))}
Windows == \A i \in 1..3 : \A p \in Props : Read(objs, i)[p] = {x \in W(i) : x + Offset(objs, i) \in objs[1].m[p]}
Laws == \A i \in 1..3 : \A p \in MCProps :
    LET r == Apply(objs, [t |-> "remove", o |-> i, p |-> p, ix |-> AscSeq(W(i))])
        c == Apply(objs, [t |-> "clear", o |-> i])
    IN /\ r.ret[1] = Read(objs, i)[p]
       /\ Read(r.objs, i)[p] = {}
       /\ Add(r.objs, i, p, r.ret[1]) = objs                         \* removing and adding back
       /\ \A q \in Props : \A x \in Other(i) : x \in c.objs[1].m[q] <=> x \in objs[1].m[q]
       /\ \A q \in Props : Read(c.objs, i)[q] = {}
\* making room and deleting it again changes nothing, deleting removes exactly the window
Shifts == \A s \in 0..N : \A n \in 0..2 :
    /\ ShiftL(ShiftR(objs, 1, s, n), 1, s, n) = objs
    /\ \A p \in Props : \A x \in s..(s + n - 1) : x \notin ShiftR(objs, 1, s, n)[1].m[p]
    /\ \A p \in Props : Cardinality(ShiftL(objs, 1, s, n)[1].m[p]) = Cardinality(objs[1].m[p] \ (s..(s + n - 1)))
Inv == Windows /\ Laws /\ Shifts
=============================================================================
