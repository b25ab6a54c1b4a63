------------------------------ MODULE IndexOps ------------------------------
(* Properties on the indices of a flat array (constraints, fixes, priors ...):  *)
(* an index set object is a mapping from properties to sets of indices, a view  *)
(* is a window of another object.  objs is the sequence of all objects:          *)
(*   [k |-> "op", m |-> [Props -> SUBSET Int]]                                  *)
(*   [k |-> "view", b |-> object, off |-> , size |-> ]                          *)
EXTENDS PySeq

Props == {"a", "b", "c"}
Empty == [p \in Props |-> {}]

RECURSIVE Read(_, _)
Read(objs, i) ==
    LET o == objs[i] IN
    IF o.k = "op" THEN o.m
    ELSE LET base == Read(objs, o.b)
         IN [p \in Props |-> {x - o.off : x \in {y \in base[p] : y >= o.off /\ y < o.off + o.size}}]

\* write through: the object at the bottom and the offset up to it
RECURSIVE Bottom(_, _)
Bottom(objs, i) == IF objs[i].k = "op" THEN i ELSE Bottom(objs, objs[i].b)
RECURSIVE Offset(_, _)
Offset(objs, i) == IF objs[i].k = "op" THEN 0 ELSE objs[i].off + Offset(objs, objs[i].b)
Put(objs, i, m) == [objs EXCEPT ![i] = [@ EXCEPT !.m = m]]
Add(objs, i, p, S) ==
    LET b == Bottom(objs, i)
    IN Put(objs, b, [objs[b].m EXCEPT ![p] = @ \cup {x + Offset(objs, i) : x \in S}])
Del(objs, i, p, S) ==
    LET b == Bottom(objs, i)
    IN Put(objs, b, [objs[b].m EXCEPT ![p] = @ \ {x + Offset(objs, i) : x \in S}])
ShiftR(objs, i, start, n) ==
    LET b == Bottom(objs, i)
        s == start + Offset(objs, i)
    IN Put(objs, b, [p \in Props |-> {IF x >= s THEN x + n ELSE x : x \in objs[b].m[p]}])
ShiftL(objs, i, start, n) ==
    LET b == Bottom(objs, i)
        s == start + Offset(objs, i)
    IN Put(objs, b, [p \in Props |-> {IF x >= s THEN x - n ELSE x : x \in {y \in objs[b].m[p] : y < s \/ y >= s + n}}])
RECURSIVE AddAll(_, _, _, _)
AddAll(objs, i, m, ps) ==
    IF ps = {} THEN objs
    ELSE LET p == CHOOSE x \in ps : TRUE IN AddAll(Add(objs, i, p, m[p]), i, m, ps \ {p})
RECURSIVE DelAll(_, _, _, _)
DelAll(objs, i, m, ps) ==
    IF ps = {} THEN objs
    ELSE LET p == CHOOSE x \in ps : TRUE IN DelAll(Del(objs, i, p, m[p]), i, m, ps \ {p})

\* outcome: [objs, ret]; ret is a sequence of sets
Apply(objs, op) ==
    LET me == IF op.t = "new" THEN Empty ELSE Read(objs, op.o) IN
    CASE op.t = "new" -> [objs |-> Append(objs, [k |-> "op", m |-> Empty]), ret |-> <<>>]
      [] op.t = "view" -> [objs |-> Append(objs, [k |-> "view", b |-> op.o, off |-> op.off, size |-> op.size]), ret |-> <<>>]
      [] op.t = "copy" -> [objs |-> Append(objs, [k |-> "op", m |-> me]), ret |-> <<>>]
      [] op.t = "add" -> [objs |-> Add(objs, op.o, op.p, Range(op.ix)), ret |-> <<>>]
      [] op.t = "remove" -> [objs |-> Del(objs, op.o, op.p, Range(op.ix)), ret |-> <<me[op.p] \cap Range(op.ix)>>]
      [] op.t = "del" -> [objs |-> Del(objs, op.o, op.p, me[op.p]), ret |-> <<>>]
      [] op.t = "clear" -> [objs |-> DelAll(objs, op.o, me, Props), ret |-> <<>>]
      [] op.t = "right" -> [objs |-> ShiftR(objs, op.o, op.start, op.n), ret |-> <<>>]
      [] op.t = "left" -> [objs |-> ShiftL(objs, op.o, op.start, op.n), ret |-> <<>>]
      [] op.t = "update" -> LET m == Read(objs, op.src)
                            IN [objs |-> AddAll(objs, op.o, [p \in Props |-> {x + op.off : x \in m[p]}], Props), ret |-> <<>>]
      [] op.t = "get" -> [objs |-> objs, ret |-> <<me[op.p]>>]
      [] op.t = "for" -> [objs |-> objs, ret |-> [j \in DOMAIN op.ix |-> {p \in Props : op.ix[j] \in me[p]}]]
      [] op.t = "dict" -> [objs |-> objs, ret |-> LET D(p) == {x \in Range(op.ix) : x \in me[p]} IN <<D("a"), D("b"), D("c")>>]
      [] op.t = "size" -> [objs |-> objs, ret |-> <<{Cardinality(me["a"]) + Cardinality(me["b"]) + Cardinality(me["c"])}>>]
      [] op.t = "noop" -> [objs |-> objs, ret |-> <<>>]
=============================================================================
