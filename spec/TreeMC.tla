------------------------------- MODULE TreeMC -------------------------------
(* Every reachable state of small hierarchies under a fixed set of operations.  *)
(*                                                                              *)
(* Beside the element-wise specification (Tree) this runs the algorithm of the  *)
(* implementation for constraints: every root keeps, per property, the set of   *)
(* flat positions that carry it; linking makes room and moves the child's       *)
(* positions in, unlinking takes them out and closes the gap, and every other   *)
(* object looks at its window of the root.  The windows have to agree with the  *)
(* element-wise labels in every reachable state (refinement).                   *)
(*                                                                              *)
(* TLC also writes out every transition; the harness walks through the real     *)
(* code along them.                                                             *)
EXTENDS Tree, Json, TLCExt
CONSTANTS MODE, MAXN, BIG                     \* BIG = 1: all operations
VARIABLES s, idx
vars == <<s, idx>>

-----------------------------------------------------------------------------
(* pools and operations *)
Leaf(nm, shape, val) == [leaf |-> 1, shape |-> shape, val |-> val, dc |-> "none", name |-> nm, ini |-> 1, cls |-> ""]
NodeI(nm, i) == [leaf |-> 0, shape |-> <<>>, val |-> <<>>, dc |-> "none", name |-> nm, ini |-> i, cls |-> ""]
Node(nm) == NodeI(nm, 1)
A(c) == <<96 + c>>                          \* "a", "b", ...
O(o) == [k |-> "o", o |-> o]
Sl(a, b) == [full |-> 0, mask |-> <<>>, at |-> <<[t |-> "s", a |-> a, b |-> b, k |-> 1, ha |-> 1, hb |-> 1]>>]
All1 == [full |-> 0, mask |-> <<>>, at |-> <<FullSlice>>]
At(o, a, b) == [k |-> "s", o |-> o, sel |-> Sl(a, b)]
Chr(c) == [r |-> "c", c |-> 96 + c]
Cat(x) == [r |-> "cat", x |-> x]
Star == [r |-> "star", x |-> [r |-> "any"]]
Re(o, re) == [k |-> "r", o |-> o, re |-> re]
ReX(o, re, a, b) == [k |-> "x", o |-> o, re |-> re, sel |-> Sl(a, b)]

Append_(p, c) == [t |-> "link", p |-> p, c |-> c, at |-> 0, i |-> 0]
Insert(p, c, i) == [t |-> "link", p |-> p, c |-> c, at |-> 1, i |-> i]
Unlink_(p, c) == [t |-> "unlink", p |-> p, c |-> c]
Con(h, c) == [t |-> "constrain", h |-> h, c |-> c, via |-> ""]
Uncon(h, cs) == [t |-> "unconstrain", h |-> h, cs |-> cs, via |-> ""]
Fix_(h) == [t |-> "fix", h |-> h, hv |-> 0, v |-> <<0>>, via |-> ""]
FixTo(h, v) == [t |-> "fix", h |-> h, hv |-> 1, v |-> <<v>>, via |-> ""]
Unfix_(h) == [t |-> "unfix", h |-> h, via |-> ""]
Tag_(o, ix) == [t |-> "tag", o |-> o, g |-> "g1", ix |-> ix]
Untag(o, ix) == [t |-> "untag", o |-> o, g |-> "g1", ix |-> ix]
Set_(h, v) == [t |-> "set", h |-> h, v |-> <<v>>, via |-> ""]
NSet(o, a, b, v) == [t |-> "nodeset", o |-> o, sel |-> Sl(a, b), v |-> <<v>>]
Raw(o, ix, v) == [t |-> "rawset", o |-> o, ix |-> ix, v |-> <<v>>]
Upd(o, on) == [t |-> "updates", o |-> o, on |-> on]
Tog(o) == [t |-> "toggle", o |-> o]
Trg_(o) == [t |-> "trigger", o |-> o]
\* what is written to the optimizer array stands for this value under each constraint
Goal(c) == CASE c = "pos" -> 3 [] c = "neg" -> -3 [] c = "b1" -> 2 [] OTHER -> 3
XVal == [c \in {"id"} \cup Cons |-> Goal(c)]
SetX(o) == [t |-> "setopt", o |-> o, x |-> Const(12, XVal)]
RandX(o) == [t |-> "randomize", o |-> o, x |-> Const(12, XVal)]
Grd(o, a, b, v) == [t |-> "setgrad", o |-> o, sel |-> Sl(a, b), v |-> <<v>>, via |-> ""]
Get(o) == [t |-> "getopt", o |-> o]
Flatn(o, all) == [t |-> "flatnames", o |-> o, all |-> all]
IsF(o) == [t |-> "isfixed", o |-> o]
OptG(o) == [t |-> "optgrad", o |-> o]
Read_(q) == [t |-> "read", q |-> q]
Cmp(q, f, v) == [t |-> "compare", q |-> q, v |-> <<v>>, f |-> f]
Copy_(o, via) == [t |-> "copy", o |-> o, via |-> via]
Ini(o) == [t |-> "initialize", o |-> o]
Show(h) == [t |-> "print", h |-> h, html |-> 0, vt |-> 1, tags |-> 0, models |-> Const(20, 0)]
Pn(o) == [t |-> "pnames", o |-> o, slf |-> 0, adj |-> 0, rec |-> 1]

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Links(ps, cs) == {Append_(p, c) : p \in ps, c \in cs}
Inserts(ps, cs, is) == {Insert(p, c, i) : p \in ps, c \in cs, i \in is}
Unlinks(ps, cs) == {Unlink_(p, c) : p \in ps, c \in cs}

Pool ==
    CASE MODE \in {"struct"} -> <<Node(A(1)), Node(A(2)), Node(A(3)), Leaf(A(4), <<2>>, <<1, 2>>), Leaf(A(5), <<1>>, <<3>>)>>
      [] MODE \in {"deferred"} -> <<NodeI(A(1), 0), NodeI(A(2), 0), Leaf(A(3), <<2>>, <<1, 2>>), Leaf(A(4), <<1>>, <<3>>)>>
      [] MODE \in {"updates"} -> <<Node(A(1)), Node(A(2)), Leaf(A(3), <<2>>, <<1, 2>>), Leaf(A(4), <<1>>, <<3>>)>>
      [] MODE \in {"regex"} -> <<Node(A(1)), Node(A(2)), Leaf(A(3), <<2>>, <<1, 2>>), Leaf(A(4), <<1>>, <<1>>)>>
      [] MODE = "optgrad" -> <<[Node(A(1)) EXCEPT !.cls = "model"], [Node(A(2)) EXCEPT !.cls = "model"], Leaf(A(3), <<2>>, <<1, 2>>), Leaf(A(4), <<1>>, <<3>>)>>
      [] OTHER -> <<Node(A(1)), Node(A(2)), Leaf(A(3), <<2>>, <<1, 2>>), Leaf(A(4), <<1>>, <<3>>)>>
N2 == {1, 2}
L2 == {3, 4}
O2 == N2 \cup L2
Edits2 == Links(N2, O2) \cup Inserts(N2, O2, {0}) \cup Unlinks(N2, O2)
Joins2 == Links(N2, O2) \cup Unlinks(N2, O2)
If(c, S) == IF c = 1 THEN S ELSE {}
OpSet ==
    CASE MODE = "struct" -> Links({1, 2, 3}, 1..5) \cup Inserts({1, 2, 3}, 1..5, {0, 1, -1, 7}) \cup Unlinks({1, 2, 3}, 1..5)
      [] MODE = "deferred" -> Joins2 \cup {Ini(o) : o \in O2} \cup {Con(O(4), "neg"), Con(At(3, 1, 2), "neg")}
                               \cup {Set_(O(1), 4), NSet(2, 0, 1, 4)}
                               \cup If(BIG, {Con(O(2), "neg"), Fix_(O(1)), Insert(1, 3, 0), Insert(1, 2, 0)})
      [] MODE = "labels" -> Edits2 \cup {Con(h, "pos") : h \in {O(1), O(2), O(4), At(3, 1, 2)}} \cup {Con(h, "b1") : h \in {O(3)}}
                               \cup {Uncon(h, <<>>) : h \in {O(1), O(3), O(4), At(3, 0, 1)}} \cup {Uncon(O(2), <<"pos">>), Uncon(O(1), <<"b1">>)}
      [] MODE = "fixes" -> Edits2 \cup {Fix_(h) : h \in {O(1), O(2), At(3, 0, 1)}} \cup {Unfix_(h) : h \in {O(1), O(2), O(3), At(3, 1, 2)}}
                               \cup {Con(At(3, 1, 2), "pos"), Uncon(O(1), <<>>)} \cup {IsF(o) : o \in O2}
                               \cup If(BIG, {Tag_(3, <<1>>), Tag_(1, <<0>>), Untag(3, <<1>>), Con(O(4), "pos"), Fix_(O(4)), Unfix_(O(4))})
      [] MODE = "tags" -> Edits2 \cup {Tag_(3, <<1>>), Tag_(1, <<0>>), Untag(3, <<1>>), Tag_(4, <<0>>), Tag_(2, <<0, 1>>), Untag(1, <<0>>), Untag(2, <<0>>)} \cup {Fix_(At(3, 0, 1)), Unfix_(O(1))}
      [] MODE = "values" -> Edits2 \cup {Set_(h, 4) : h \in {O(1), O(4), At(3, 1, 2)}} \cup {NSet(1, 0, 1, 5), NSet(2, 0, 2, 5), Raw(1, <<0>>, 4), Raw(3, <<1>>, 5), Raw(2, <<0>>, 5)}
                               \cup {SetX(1), SetX(3)}
      [] MODE = "updates" -> Joins2 \cup {Upd(o, 0) : o \in {1, 2, 4}} \cup {Upd(o, 1) : o \in {1, 3}} \cup {Tog(o) : o \in {2, 3}} \cup {Trg_(o) : o \in O2}
                               \cup {Set_(h, 4) : h \in {O(1), At(3, 1, 2)}} \cup {NSet(2, 0, 1, 4), SetX(1), RandX(2)}
                               \cup If(BIG, {Set_(O(4), 4), SetX(2), Upd(3, 0), Upd(2, 1), Upd(4, 1), NSet(1, 0, 1, 5)} \cup Inserts(N2, L2, {0}))
      [] MODE = "opt" -> Joins2 \cup {Con(O(4), "pos"), Con(At(3, 1, 2), "neg"), Uncon(O(1), <<>>)} \cup {Fix_(At(3, 0, 1))} \cup {Unfix_(O(1)), Unfix_(O(3))}
                               \cup {SetX(o) : o \in {1, 3}} \cup {Get(o) : o \in O2} \cup {Flatn(o, 0) : o \in {1, 2}}
                               \cup If(BIG, {Con(O(2), "b1"), SetX(2), Fix_(O(2)), Set_(O(4), 4), Flatn(3, 0)})
      [] MODE = "regex" -> Joins2 \cup UNION {{Set_(h, 2), Read_(h)} :
                                   h \in {Re(1, Cat(<<Star>>)), Re(1, Cat(<<Star, Chr(4)>>)), Re(2, Cat(<<Chr(3)>>)), ReX(1, Cat(<<Star>>), 0, 2), ReX(1, Cat(<<Star>>), 1, 9)}}
                               \cup {Cmp(Re(1, Cat(<<Star>>)), "lt", 2), [t |-> "grep", o |-> 1, re |-> Cat(<<Star>>)], [t |-> "grep", o |-> 1, re |-> Cat(<<Chr(2), Star, Chr(3)>>)]}
                               \cup UNION {{Fix_(h), Con(h, "pos"), Unfix_(h), Uncon(h, <<>>)} : h \in {ReX(1, Cat(<<Star>>), 1, 9)}}
                               \cup If(BIG, UNION {{Con(h, "neg"), Fix_(h), Unfix_(h), Uncon(h, <<>>)} : h \in {Re(1, Cat(<<Star>>)), Re(2, Cat(<<Chr(3)>>))}})
      [] MODE = "grads" -> Edits2 \cup {Grd(3, 1, 2, 4), Grd(4, 0, 1, 5), Grd(1, 0, 1, 4), Grd(2, 0, 2, 5), Grd(1, 0, 9, 5)}
      [] MODE = "optgrad" -> Joins2 \cup {Grd(1, 0, 1, 4), Grd(1, 0, 9, 5)} \cup {Con(At(3, 1, 2), "neg"), Uncon(O(1), <<>>), Fix_(At(3, 0, 1)), Unfix_(O(1)), OptG(1), OptG(2)}
                               \cup If(BIG, {Con(O(4), "pos"), Fix_(O(4))})
      [] MODE = "copies" -> {Append_(1, 2), Append_(2, 3), Append_(1, 4), Unlink_(1, 2)} \cup {Copy_(1, "copy"), Copy_(1, "pickle")}
                               \cup {Fix_(At(3, 1, 2)), Con(O(4), "neg")}
                               \cup {Set_(O(5), 4), Unlink_(5, 6), Append_(1, 5), Unfix_(O(5))}
                               \cup If(BIG, {Set_(O(4), 4), Copy_(2, "copy"), Copy_(4, "copy"), Unlink_(5, 7), Upd(1, 0)})
      [] MODE = "print" -> Joins2 \cup {Con(O(4), "pos"), Con(At(3, 1, 2), "neg"), Uncon(O(1), <<>>), Fix_(At(3, 0, 1)), Unfix_(O(1))}
                               \cup {Show(h) : h \in {O(1), O(2), O(3), At(3, 1, 2), Re(1, Cat(<<Star>>))}} \cup {Pn(1)}
                               \cup If(BIG, {Fix_(O(2)), Con(O(2), "b1")} \cup Inserts(N2, O2, {0}))
Ops == SetSeq(OpSet)

\* operations the specification says something about
Elements(x, t) == CASE t.k \in {"o", "s"} -> Addr(x, t) # <<>> \/ (t.k = "o" /\ ~x.leaf[t.o])
                    [] OTHER -> ~NoMatch(x, t) => (ReElems(x, t) # <<>> /\ Addr(x, t) # <<>>)
Exists(x, t) == t.o <= x.n
Possible(x, op) ==
    CASE op.t = "link" -> op.p <= x.n /\ op.c <= x.n /\ ~x.leaf[op.p] /\ (Size(x, op.p) + Size(x, op.c) <= 12)
      [] op.t = "unlink" -> op.p <= x.n /\ op.c <= x.n /\ ~x.leaf[op.p]
      [] op.t \in {"constrain", "unconstrain", "fix", "unfix", "print"} -> Exists(x, op.h) /\ Elements(x, op.h)
      [] op.t = "set" -> Exists(x, op.h) /\ Elements(x, op.h) /\ (op.h.k \in {"r", "x"} => ~NoMatch(x, op.h))
      [] op.t = "nodeset" -> Size(x, op.o) > 0
      [] op.t = "rawset" -> Size(x, op.o) > 0 /\ x.ini[op.o]
      [] op.t \in {"setopt", "randomize", "getopt", "setgrad"} -> Size(x, op.o) > 0
      [] op.t = "optgrad" -> LET fr == Free(x, op.o) IN fr # <<>> /\ x.upd[op.o] /\
                             \A i \in DOMAIN fr : LET c == x.con[fr[i][1]][fr[i][2]] v == x.val[fr[i][1]][fr[i][2]]
                                                  IN CASE c \in {"pos"} -> v > 0 [] c \in {"neg"} -> v < 0 [] OTHER -> TRUE
      [] op.t \in {"tag", "untag"} -> \A i \in DOMAIN op.ix : op.ix[i] < Size(x, op.o)
      [] op.t \in {"read", "compare"} -> Exists(x, op.q) /\ Elements(x, op.q)
      [] op.t = "copy" -> op.o <= x.n /\ x.n + Len(Pre(x, op.o)) <= MAXN /\ x.n = Len(Pool) /\ (BIG = 0 => op.o = 1)
      [] op.t = "updates" -> op.o <= x.n
      [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* the implementation's way of keeping labels: flat positions at the root *)
Props == Cons \cup {"fixed", "g1"}
NoIdx == [p \in Props |-> {}]
Before(x, o, d) ==                          \* how many values stand in front of d below o
    LET q == Pre(x, o)
        k == IndexOf(q, d)
    IN Sum([i \in 1..(k - 1) |-> IF x.leaf[q[i]] THEN Len(x.val[q[i]]) ELSE 0])
Off(x, o) == Before(x, RootOf(x, o), o)
Room(S, at, n) == {y \in S : y < at} \cup {y + n : y \in {z \in S : z >= at}}
Cut(S, at, n) == {y \in S : y < at} \cup {y - n : y \in {z \in S : z >= at + n}}
Window(S, at, n) == {y - at : y \in {z \in S : z >= at /\ z < at + n}}
Put(S, at) == {y + at : y \in S}
View_(x, ix, o) == [p \in Props |-> Window(ix[RootOf(x, o)][p], Off(x, o), Size(x, o))]
TakeOut(x, ix, c) ==                        \* c leaves its hierarchy x
    IF x.par[c] = 0 THEN ix
    ELSE [ix EXCEPT ![RootOf(x, c)] = [p \in Props |-> Cut(@[p], Off(x, c), Size(x, c))],
                    ![c] = View_(x, ix, c)]
PutIn(x2, ix, c) ==                         \* c is in x2 where it has to be
    LET r == RootOf(x2, c) IN
    [ix EXCEPT ![r] = [p \in Props |-> Room(@[p], Off(x2, c), Size(x2, c)) \cup Put(ix[c][p], Off(x2, c))], ![c] = NoIdx]
Flats(x, addr, r) == {Off(x, addr[i][1]) + addr[i][2] - 1 : i \in DOMAIN addr}
Relabel(x, ix, addr, add, rem) ==
    LET roots == {RootOf(x, addr[i][1]) : i \in DOMAIN addr}
    IN [r \in DOMAIN ix |-> IF r \notin roots THEN ix[r]
            ELSE LET F == Flats(x, Filter(addr, LAMBDA e : RootOf(x, e[1]) = r), r)
                 IN [p \in Props |-> IF p \in rem THEN (ix[r][p] \ F) \cup (IF p \in add THEN F ELSE {})
                                     ELSE IF p \in add THEN ix[r][p] \cup F ELSE ix[r][p]]]
IdxStep(x, ix, op, r) ==
    IF r.out # "ok" THEN ix
    ELSE CASE op.t = "link" ->
                LET x1 == IF x.par[op.c] = 0 THEN x ELSE Apply(x, Unlink_(x.par[op.c], op.c)).s
                IN PutIn(r.s, TakeOut(x, ix, op.c), op.c)
           [] op.t = "unlink" -> TakeOut(x, ix, op.c)
           [] op.t = "constrain" -> Relabel(x, ix, Addr(x, op.h), {op.c}, Cons \cup {"fixed"})
           [] op.t = "unconstrain" -> Relabel(x, ix, Addr(x, op.h), {}, IF op.cs = <<>> THEN Cons \cup {"fixed"} ELSE Range(op.cs))
           [] op.t = "fix" -> Relabel(x, ix, Addr(x, op.h), {"fixed"}, {})
           [] op.t = "unfix" -> Relabel(x, ix, Addr(x, op.h), {}, {"fixed"})
           [] op.t = "tag" -> Relabel(x, ix, [i \in DOMAIN op.ix |-> Elems(x, op.o)[op.ix[i] + 1]], {"g1"}, {})
           [] op.t = "untag" -> Relabel(x, ix, [i \in DOMAIN op.ix |-> Elems(x, op.o)[op.ix[i] + 1]], {}, {"g1"})
           [] op.t = "copy" -> ix \o [i \in 1..Len(Pre(x, op.o)) |-> IF i = 1 THEN View_(x, ix, op.o) ELSE NoIdx]
           [] OTHER -> ix

-----------------------------------------------------------------------------
Init == /\ s = Init0(Pool)
        /\ idx = Const(Len(Pool), NoIdx)
        /\ PrintT("POOL " \o ToJson(Pool))
        /\ \A k \in DOMAIN Ops : PrintT("OP " \o ToJson(<<k, Ops[k]>>))
        /\ PrintT("INIT " \o ToJson(<<TLCFP(s), TLCFP(<<s>>)>>))
Next == \E k \in DOMAIN Ops :
            /\ Possible(s, Ops[k])
            /\ LET r == Apply(s, Ops[k]) IN
               /\ s' = r.s
               /\ idx' = IdxStep(s, idx, Ops[k], r)
            /\ PrintT(<<"T", TLCFP(s), TLCFP(<<s>>), k, TLCFP(s'), TLCFP(<<s'>>)>>)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* the hierarchy is an ordered forest *)
Forest ==
    /\ \A o \in Objs(s) : \A c \in Range(s.kids[o]) : s.par[c] = o
    /\ \A o \in Objs(s) : s.par[o] # 0 => Cardinality({i \in DOMAIN s.kids[s.par[o]] : s.kids[s.par[o]][i] = o}) = 1
    /\ \A o \in Objs(s) : s.leaf[o] => s.kids[o] = <<>>
    /\ \A o \in Objs(s) : Cardinality(Below(s, o)) = Len(Pre(s, o))
\* every window of the root's flat positions shows exactly the labels of the elements below
Refines ==
    \A o \in Objs(s) :
        LET e == Elems(s, o)
            w == View_(s, idx, o)
            P(p) == {i - 1 : i \in {j \in DOMAIN e : IF p = "fixed" THEN s.fix[e[j][1]][e[j][2]]
                                                    ELSE IF p = "g1" THEN "g1" \in s.tag[e[j][1]][e[j][2]]
                                                    ELSE s.con[e[j][1]][e[j][2]] = p}}
        IN \A p \in Props : w[p] = P(p)
\* all values satisfy their constraints unless they were written afterwards; here nothing is written
Domains == MODE \in {"labels", "fixes"} =>
    \A o \in Objs(s) : \A k \in DOMAIN s.val[o] : InDom(s.con[o][k], s.val[o][k])
\* updates are on or off for whole hierarchies only if they never were combined
Initialized == \A o \in Objs(s) : s.par[o] # 0 => (s.ini[s.par[o]] => s.ini[o])
Inv == Forest /\ Refines /\ Domains /\ Initialized

(* what edits leave alone *)
Structural(op) == op.t \in {"link", "unlink", "initialize"}
Untouched == [][\A k \in DOMAIN s.val :
    (\E i \in DOMAIN Ops : Structural(Ops[i]) /\ Possible(s, Ops[i]) /\ s' = Apply(s, Ops[i]).s /\ s.kids # s'.kids)
        => (s'.val[k] = s.val[k] /\ s'.con[k] = s.con[k] /\ s'.fix[k] = s.fix[k] /\ s'.tag[k] = s.tag[k])]_vars
=============================================================================
