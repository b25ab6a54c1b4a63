-------------------------------- MODULE Tree --------------------------------
(* The parameter hierarchy: which objects hang below which, the value, the      *)
(* constraint, the fix and the gradient of every single element, names and      *)
(* update switches, and what every public operation does to them.               *)
(*                                                                              *)
(* The state is one record `s`; objects are 1..s.n; element k of leaf l is       *)
(* s.val[l][k].  Apply(s, op) gives the only allowed outcome of an operation.   *)
EXTENDS PySeq

BAD == 999999            \* what the harness logs for a number that is no integer
ANY == 888888            \* a gradient nobody has written yet

-----------------------------------------------------------------------------
(* constraints: "none", or one of                                             *)
\* bounds are -0.5..4.5, -6.5..2.5 and -2.5..8.5: no integer is on a bound
Bounds == [b1 |-> <<0, 4>>, b2 |-> <<-6, 2>>, b3 |-> <<-2, 8>>]   \* the integers within
Cons == {"pos", "neg", "exp", "nexp", "sq", "b1", "b2", "b3"}
InDom(c, v) == CASE c \in {"pos", "exp", "sq"} -> v >= 0
                 [] c \in {"neg", "nexp"} -> v <= 0
                 [] c \in DOMAIN Bounds -> v >= Bounds[c][1] /\ v <= Bounds[c][2]
                 [] OTHER -> TRUE
InitV(c, v) == CASE c \in {"pos", "exp", "sq"} -> Abs(v)
                 [] c \in {"neg", "nexp"} -> -Abs(v)
                 [] c \in DOMAIN Bounds -> IF InDom(c, v) THEN v
                                           ELSE (Bounds[c][1] + Bounds[c][2]) \div 2
                 [] OTHER -> v

-----------------------------------------------------------------------------
(* structure                                                                   *)
Objs(s) == 1..s.n
IsLeaf(s, o) == s.leaf[o]
RECURSIVE RootOf(_, _)
RootOf(s, o) == IF s.par[o] = 0 THEN o ELSE RootOf(s, s.par[o])
RECURSIVE Ancs(_, _)                       \* parent first
Ancs(s, o) == IF s.par[o] = 0 THEN <<>> ELSE <<s.par[o]>> \o Ancs(s, s.par[o])
RECURSIVE Pre(_, _)                        \* o and everything below, pre-order
Pre(s, o) == <<o>> \o Concat([i \in 1..Len(s.kids[o]) |-> Pre(s, s.kids[o][i])])
Below(s, o) == Range(Pre(s, o))
Tree(s, o) == Below(s, RootOf(s, o))
Leaves(s, o) == Filter(Pre(s, o), LAMBDA x : s.leaf[x])
NodesBelow(s, o) == {x \in Below(s, o) : ~s.leaf[x]}
Flat(s, o, f) == LET ls == Leaves(s, o) IN Concat([i \in 1..Len(ls) |-> f[ls[i]]])
Elems(s, o) == LET ls == Leaves(s, o)
               IN Concat([i \in 1..Len(ls) |-> [k \in 1..Len(s.val[ls[i]]) |-> <<ls[i], k>>]])
Size(s, o) == Len(Elems(s, o))
AllFixed(s, o) == \A e \in Range(Elems(s, o)) : s.fix[e[1]][e[2]]
Free(s, o) == Filter(Elems(s, o), LAMBDA e : ~s.fix[e[1]][e[2]])

-----------------------------------------------------------------------------
(* names: sequences of character codes                                          *)
Dot == 46
Printable(ch) == CASE ch = 32 \/ ch = 46 -> <<95>>                \* ' ' '.' -> _
                   [] ch = 45 -> <<95, 109, 95>>                   \* -  _m_
                   [] ch = 43 -> <<95, 112, 95>>                   \* +  _p_
                   [] ch = 33 -> <<95, 73, 95>>                    \* !  _I_
                   [] ch = 42 -> <<95, 120, 95>>                   \* *  _x_
                   [] ch = 47 -> <<95, 108, 95>>                   \* /  _l_
                   [] ch = 64 -> <<95, 97, 116, 95>>               \* @  _at_
                   [] ch = 40 -> <<95, 111, 102, 95>>              \* (  _of_
                   [] ch = 41 -> <<>>                              \* )
                   [] OTHER -> <<ch>>
RECURSIVE Adjust(_)                        \* ** is _xx_
Adjust(nm) == IF nm = <<>> THEN <<>>
              ELSE IF Len(nm) >= 2 /\ nm[1] = 42 /\ nm[2] = 42
                   THEN <<95, 120, 120, 95>> \o Adjust(SubSeq(nm, 3, Len(nm)))
                   ELSE Printable(nm[1]) \o Adjust(Tail(nm))
RECURSIVE HName(_, _)                      \* dotted name from the root of the hierarchy
HName(s, o) == IF s.par[o] = 0 THEN Adjust(s.name[o])
               ELSE HName(s, s.par[o]) \o <<Dot>> \o Adjust(s.name[o])
RECURSIVE RawName(_, _)                    \* the same, the names as they are
RawName(s, o) == IF s.par[o] = 0 THEN s.name[o] ELSE RawName(s, s.par[o]) \o <<Dot>> \o s.name[o]
RECURSIVE Path(_, _)                       \* dotted name below the root
Path(s, o) == IF s.par[o] = 0 THEN <<>>
              ELSE IF s.par[s.par[o]] = 0 THEN Adjust(s.name[o])
              ELSE Path(s, s.par[o]) \o <<Dot>> \o Adjust(s.name[o])
\* dotted name of a leaf below o, without o itself; printed or raw
RECURSIVE RelName(_, _, _, _)
RelName(s, o, l, adj) ==
    LET me == IF adj THEN Adjust(s.name[l]) ELSE s.name[l]
    IN IF s.par[l] = o \/ l = o THEN me ELSE RelName(s, o, s.par[l], adj) \o <<Dot>> \o me

(* regular expressions: [r|->"c", c|->code] [r|->"any"] [r|->"star", x|->]          *)
(* [r|->"opt", x|->] [r|->"cat", x|->Seq] [r|->"alt", x|->Seq] [r|->"set", s|->Seq] [r|->"end"]     *)
RECURSIVE Ends(_, _, _)                    \* positions after a match starting after position i
Ends(r, w, i) ==
    CASE r.r = "c" -> IF i < Len(w) /\ w[i + 1] = r.c THEN {i + 1} ELSE {}
      [] r.r = "any" -> IF i < Len(w) THEN {i + 1} ELSE {}
      [] r.r = "set" -> IF i < Len(w) /\ w[i + 1] \in Range(r.s) THEN {i + 1} ELSE {}
      [] r.r = "end" -> IF i = Len(w) THEN {i} ELSE {}
      [] r.r = "opt" -> {i} \cup Ends(r.x, w, i)
      [] r.r = "alt" -> UNION {Ends(r.x[k], w, i) : k \in DOMAIN r.x}
      [] r.r = "cat" -> IF r.x = <<>> THEN {i}
                        ELSE UNION {Ends([r |-> "cat", x |-> Tail(r.x)], w, j) : j \in Ends(Head(r.x), w, i)}
      [] r.r = "star" -> {i} \cup UNION {Ends(r, w, j) : j \in Ends(r.x, w, i) \ {i}}
Matches(r, w) == Ends(r, w, 0) # {}
Grep(s, o, r) == Filter(Tail(Pre(s, o)), LAMBDA x : Matches(r, Path(s, x)))
RECURSIVE Dedup(_)
Dedup(q) == IF q = <<>> THEN <<>>
            ELSE <<Head(q)>> \o Dedup(Filter(Tail(q), LAMBDA x : x # Head(q)))

-----------------------------------------------------------------------------
(* targets of an operation                                                     *)
(*  [k|->"o", o|->]          an object                                          *)
(*  [k|->"s", o|->, sel|->]   a selection of a leaf                              *)
(*  [k|->"r", o|->, re|->]    node[regular expression]                           *)
(*  [k|->"x", o|->, re|->, sel|->]  a selection of the concatenation              *)
ReLeaves(s, t) == LET g == Grep(s, t.o, t.re)
                  IN Dedup(Concat([i \in 1..Len(g) |-> Leaves(s, g[i])]))
ReElems(s, t) == LET ls == ReLeaves(s, t)
                 IN Concat([i \in 1..Len(ls) |-> [k \in 1..Len(s.val[ls[i]]) |-> <<ls[i], k>>]])
Addr(s, t) ==
    CASE t.k = "o" -> Elems(s, t.o)
      [] t.k = "s" -> LET ix == SelIdx(s.shape[t.o], t.sel)
                      IN [i \in 1..Len(ix) |-> <<t.o, ix[i] + 1>>]
      [] t.k = "r" -> ReElems(s, t)
      [] t.k = "x" -> LET e == ReElems(s, t)
                          ix == SelIdx(<<Len(e)>>, t.sel)
                      IN [i \in 1..Len(ix) |-> e[ix[i] + 1]]
NoMatch(s, t) == t.k \in {"r", "x"} /\ Grep(s, t.o, t.re) = <<>>

\* set field f of the addressed elements to the given sequence (the last one wins)
PutSeq(f, addr, v) ==
    [o \in DOMAIN f |->
        IF \E i \in DOMAIN addr : addr[i][1] = o
        THEN [k \in DOMAIN f[o] |->
                LET hit == {i \in DOMAIN addr : addr[i] = <<o, k>>}
                IN IF hit = {} THEN f[o][k] ELSE v[CHOOSE i \in hit : \A j \in hit : j <= i]]
        ELSE f[o]]
PutAll(f, addr, v) == PutSeq(f, addr, [i \in DOMAIN addr |-> v])
Bcast(v, n) == IF Len(v) = 1 THEN [i \in 1..n |-> v[1]] ELSE v

-----------------------------------------------------------------------------
(* who is told                                                                 *)
RECURSIVE Ntf(_, _)                        \* o announces a change: o and its ancestors
Ntf(s, o) == IF o = 0 THEN {} ELSE IF ~s.upd[o] THEN {}
             ELSE (IF s.leaf[o] THEN {} ELSE {o}) \cup Ntf(s, s.par[o])
TrgDown(s, o) == {x \in NodesBelow(s, o) : s.upd[x]}
Trg(s, o) == IF ~s.upd[o] THEN {} ELSE TrgDown(s, o) \cup Ntf(s, o)
\* nodes that contain a changed element and can be reached from o
\* optimizer writes need not tell children that are fixed completely
RECURSIVE TrgFree(_, _)
TrgFree(s, o) == (IF s.upd[o] /\ ~s.leaf[o] THEN {o} ELSE {})
                 \cup UNION {TrgFree(s, c) : c \in {x \in Range(s.kids[o]) : ~AllFixed(s, x)}}
TrgOpt(s, o) == IF ~s.upd[o] THEN {} ELSE TrgFree(s, o) \cup Ntf(s, o)

-----------------------------------------------------------------------------
(* outcomes: [s, out, need, exact, ret]                                         *)
(*  need: nodes whose callback has to have run with the final values;            *)
(*  exact: nothing else may have run, and each exactly once                      *)
R(s, out) == [s |-> s, out |-> out, need |-> {}, exact |-> TRUE, ret |-> <<>>]
Done(s, need, exact) == [s |-> s, out |-> "ok", need |-> need, exact |-> exact, ret |-> <<>>]
Ret(s, v) == [s |-> s, out |-> "ok", need |-> {}, exact |-> TRUE, ret |-> v]

Link(s, op) ==
    LET p == op.p
        c == op.c
        q == s.par[c]
        kidsC == IF q = 0 THEN s.kids ELSE [s.kids EXCEPT ![q] = RemoveVal(@, c)]
        new == IF op.at = 1 THEN ListInsert(kidsC[p], op.i, c) ELSE Append(kidsC[p], c)
        s2 == [s EXCEPT !.kids = [kidsC EXCEPT ![p] = new], !.par = [@ EXCEPT ![c] = p],
                        !.ini = IF s.ini[p]
                                THEN [o \in Objs(s) |-> s.ini[o] \/ o \in Below(s, c)] ELSE @]
    IN IF q = p THEN IF op.at = 1 THEN Done(s2, {}, FALSE) ELSE R(s, "HierarchyError")
       ELSE IF c = p \/ c \in Range(Ancs(s, p)) THEN R(s, "HierarchyError")
       ELSE IF q # 0 /\ p \in Tree(s, c) THEN R(s, "HierarchyError")
       ELSE Done(s2, {}, FALSE)

Unlink(s, op) ==
    IF s.par[op.c] # op.p THEN R(s, "HierarchyError")
    ELSE Done([s EXCEPT !.kids = [@ EXCEPT ![op.p] = RemoveVal(@, op.c)],
                        !.par = [@ EXCEPT ![op.c] = 0]], {}, FALSE)

\* value writes
SetVals(s, t, v) == LET a == Addr(s, t) IN [s EXCEPT !.val = PutSeq(@, a, Bcast(v, Len(a)))]
WriteNeed(s, t) ==
    CASE t.k = "o" -> IF s.leaf[t.o] THEN Ntf(s, t.o) ELSE Trg(s, t.o)
      [] t.k = "s" -> Ntf(s, t.o)
      [] t.k \in {"r", "x"} ->
            LET g == Grep(s, t.o, t.re)
                a == Addr(s, t)
            IN IF Len(g) = 1 /\ t.k = "r" THEN (IF s.leaf[g[1]] THEN Ntf(s, g[1]) ELSE Trg(s, g[1]))
               ELSE UNION {Ntf(s, a[i][1]) : i \in DOMAIN a}
LeafWrite(s, t) == (t.k = "o" /\ s.leaf[t.o]) \/ t.k = "s"
                   \/ (t.k = "r" /\ Len(Grep(s, t.o, t.re)) = 1 /\ s.leaf[Grep(s, t.o, t.re)[1]])
Uninit(s, t) == t.k \in {"o", "r"} /\ ~s.leaf[t.o] /\ ~s.ini[t.o]
Set(s, op) ==
    IF Uninit(s, op.h) THEN R(s, "AttributeError")
    ELSE IF NoMatch(s, op.h) THEN R(s, "AttributeError")
    ELSE Done(SetVals(s, op.h, op.v), WriteNeed(s, op.h), LeafWrite(s, op.h))
Shift(s, op) ==                            \* in-place arithmetic on a leaf or what a regular expression matches
    LET a == Addr(s, op.h)
        f(x) == CASE op.f = "add" -> x + op.d [] op.f = "sub" -> x - op.d [] op.f = "mul" -> x * op.d
                  [] op.f = "quo" -> x \div op.d [] op.f = "mod" -> x % op.d
                  [] op.f = "pow" -> x * x
                  [] op.f = "div" -> x * op.d                        \* only used with 1 and -1
    IN IF NoMatch(s, op.h) THEN R(s, "AttributeError")
       ELSE Done([s EXCEPT !.val = PutSeq(@, a, [i \in DOMAIN a |-> f(s.val[a[i][1]][a[i][2]])])],
            WriteNeed(s, op.h), op.h.k = "o")
RawSet(s, op) ==                           \* writing a node's flat array in memory tells nobody
    Done([s EXCEPT !.val = PutSeq(@, [i \in 1..Len(op.ix) |-> Elems(s, op.o)[op.ix[i] + 1]], Bcast(op.v, Len(op.ix)))], {}, TRUE)
NodeSet(s, op) ==                          \* node[index array or slice] = v
    IF ~s.ini[op.o] THEN R(s, "AttributeError")
    ELSE LET ix == SelIdx(<<Size(s, op.o)>>, op.sel)
         IN Done([s EXCEPT !.val = PutSeq(@, [i \in 1..Len(ix) |-> Elems(s, op.o)[ix[i] + 1]], Bcast(op.v, Len(ix)))],
                 Trg(s, op.o), FALSE)

\* constraints
Constrain(s, op) ==
    IF NoMatch(s, op.h) THEN R(s, "AttributeError")
    ELSE IF op.c = "bogus" THEN R(s, "ValueError")
    ELSE LET a == Addr(s, op.h) IN
         Done([s EXCEPT !.val = PutSeq(@, a, [i \in DOMAIN a |-> InitV(op.c, s.val[a[i][1]][a[i][2]])]),
                        !.con = PutAll(@, a, op.c),
                        !.fix = PutAll(@, a, FALSE)],
              IF \E i \in DOMAIN a : ~InDom(op.c, s.val[a[i][1]][a[i][2]]) THEN WriteNeed(s, op.h) ELSE {}, FALSE)
Unconstrain(s, op) ==
    IF NoMatch(s, op.h) THEN R(s, "AttributeError")
    ELSE LET a == Addr(s, op.h)
             all == op.cs = <<>>
             conA == IF all THEN a ELSE Filter(a, LAMBDA e : s.con[e[1]][e[2]] \in Range(op.cs))
             fixA == IF all \/ "fixed" \in Range(op.cs) THEN a ELSE <<>>
         IN Done([s EXCEPT !.con = PutAll(@, conA, "none"), !.fix = PutAll(@, fixA, FALSE)], {}, FALSE)
Fix(s, op) ==
    IF NoMatch(s, op.h) THEN R(s, "AttributeError")
    ELSE IF op.hv = 1 /\ (\/ op.h.k = "o" /\ Uninit(s, op.h)
                          \/ op.h.k = "r" /\ LET g == Grep(s, op.h.o, op.h.re)
                                            IN Len(g) = 1 /\ ~s.leaf[g[1]] /\ ~s.ini[g[1]])
         THEN R(s, "AttributeError")
    ELSE LET a == Addr(s, op.h)
             s1 == IF op.hv = 1 THEN SetVals(s, op.h, op.v) ELSE s
         IN Done([s1 EXCEPT !.fix = PutAll(@, a, TRUE)],
                 IF op.hv = 1 THEN WriteNeed(s, op.h) ELSE {}, FALSE)
Unfix(s, op) ==
    IF NoMatch(s, op.h) THEN R(s, "AttributeError")
    ELSE LET a == Addr(s, op.h)
             ret == AscSeq({i - 1 : i \in {j \in 1..Len(a) : s.fix[a[j][1]][a[j][2]]}})
         IN Done([s EXCEPT !.fix = PutAll(@, a, FALSE)], {}, FALSE)
\* a user defined index operation
Tag(s, op) ==
    LET e == Elems(s, op.o)
        a == [i \in 1..Len(op.ix) |-> e[op.ix[i] + 1]]
        new(i) == IF op.t = "tag" THEN s.tag[a[i][1]][a[i][2]] \cup {op.g}
                  ELSE s.tag[a[i][1]][a[i][2]] \ {op.g}
    IN Done([s EXCEPT !.tag = PutSeq(@, a, [i \in DOMAIN a |-> new(i)])], {}, TRUE)

\* the optimizer's view; an entry is decoded by the harness under every constraint
Key(c) == IF c = "none" THEN "id" ELSE c
SetOpt(s, op) ==
    LET fr == Free(s, op.o)
    IN Done([s EXCEPT !.val = PutSeq(@, fr, [i \in 1..Len(fr) |-> op.x[i][Key(s.con[fr[i][1]][fr[i][2]])]])],
            TrgOpt(s, op.o), FALSE)
Randomize(s, op) ==
    LET r == SetOpt(s, op)
        u == s.upd[op.o]
        tree == Tree(s, op.o)
        s1 == [r.s EXCEPT !.upd = [o \in Objs(s) |-> IF o \in tree THEN u ELSE s.upd[o]]]
    IN Done(s1, IF u THEN Trg(s1, RootOf(s, op.o)) ELSE {}, FALSE)
Updates(s, op) ==
    LET tree == Tree(s, op.o)
        on == IF op.t = "toggle" THEN ~s.upd[op.o] ELSE op.on = 1
        s1 == [s EXCEPT !.upd = [o \in Objs(s) |-> IF o \in tree THEN on ELSE s.upd[o]]]
    IN Done(s1, Trg(s1, RootOf(s, op.o)), FALSE)
Trigger(s, op) == Done(s, Trg(s, op.o), FALSE)

\* gradients: in memory, nobody is told
SetGrad(s, op) ==
    LET ix == SelIdx(IF s.leaf[op.o] THEN s.shape[op.o] ELSE <<Size(s, op.o)>>, op.sel)
    IN Done([s EXCEPT !.grd = PutSeq(@, [i \in 1..Len(ix) |-> Elems(s, op.o)[ix[i] + 1]], Bcast(op.v, Len(ix)))], {}, TRUE)

Rename(s, op) == Done([s EXCEPT !.name = [@ EXCEPT ![op.o] = op.nm]], {}, FALSE)

\* a copy of o and everything below gets the next object numbers in pre-order
Copy(s, op) ==
    LET src == Pre(s, op.o)
        m == Len(src)
        num(x) == IF x \in Range(src) THEN s.n + IndexOf(src, x) ELSE 0
        ext(f) == f \o [i \in 1..m |-> f[src[i]]]
    IN Done([s EXCEPT !.n = s.n + m,
                !.leaf = ext(@), !.shape = ext(@), !.val = ext(@), !.con = ext(@), !.fix = ext(@),
                !.tag = ext(@), !.name = ext(@), !.upd = ext(@),
                !.ini = @ \o Const(m, TRUE),
                !.grd = @ \o [i \in 1..m |-> [k \in 1..Len(s.grd[src[i]]) |-> ANY]],
                !.par = @ \o [i \in 1..m |-> IF src[i] = op.o THEN 0 ELSE num(s.par[src[i]])],
                !.kids = @ \o [i \in 1..m |-> [k \in 1..Len(s.kids[src[i]]) |-> num(s.kids[src[i]][k])]]],
            {}, FALSE)

Init1(s, op) ==                            \* initialize_parameter()
    LET tree == Tree(s, op.o)
        s1 == [s EXCEPT !.ini = [o \in Objs(s) |-> s.ini[o] \/ o \in tree]]
    IN Done(s1, Trg(s1, op.o), FALSE)

\* queries
Encode(s, e) == <<Key(s.con[e[1]][e[2]]), s.val[e[1]][e[2]]>>
Index(shape, k) ==                         \* multi index of the flat position k (0 based)
    [d \in 1..Len(shape) |-> (k \div Prod(SubSeq(shape, d + 1, Len(shape)))) % shape[d]]
FlatName(s, e) == [n |-> HName(s, e[1]),
                   i |-> IF Len(s.val[e[1]]) > 1 THEN Index(s.shape[e[1]], e[2] - 1) ELSE <<>>]
(* printed tables: constraints as printed, bracketed unless they hold for all elements *)
Printed == <<<<"pos", "+ve">>, <<"exp", "+ve">>, <<"neg", "-ve">>, <<"nexp", "-ve">>, <<"sq", "+sq">>,
             <<"b1", "b1">>, <<"b2", "b2">>, <<"b3", "b3">>, <<"fixed", "fixed">>>>
Carries(s, e, c) == IF c = "fixed" THEN s.fix[e[1]][e[2]] ELSE s.con[e[1]][e[2]] = c
LeafCons(s, l) ==
    LET n == Len(s.val[l])
        cnt(c) == Cardinality({k \in 1..n : Carries(s, <<l, k>>, c)})
        there == Filter(Printed, LAMBDA c : cnt(c[1]) > 0)
    IN [i \in DOMAIN there |-> [c |-> there[i][2], all |-> IF cnt(there[i][1]) = n THEN 1 ELSE 0]]
LeafTags(s, l) ==
    LET n == Len(s.val[l])
        cnt(g) == Cardinality({k \in 1..n : g \in s.tag[l][k]})
        there == Filter(<<"g1", "g2">>, LAMBDA g : cnt(g) > 0)
    IN [i \in DOMAIN there |-> [c |-> there[i], all |-> IF cnt(there[i]) = n THEN 1 ELSE 0]]
ElemCons(s, e) == MapSeq(Filter(Printed, LAMBDA c : Carries(s, e, c[1])), LAMBDA c : [c |-> c[2], all |-> 1])
ElemTags(s, e) == MapSeq(Filter(<<"g1", "g2">>, LAMBDA g : g \in s.tag[e[1]][e[2]]), LAMBDA g : [c |-> g, all |-> 1])
\* the summary of a node; html gives the names as they are
Summary(s, o, html, tags) ==
    LET ls == Leaves(s, o)
    IN [h |-> Adjust(s.name[o]) \o <<Dot>>,
        rows |-> [i \in DOMAIN ls |-> [n |-> RelName(s, o, ls[i], html = 0),
            v |-> IF Len(s.val[ls[i]]) = 1 THEN s.val[ls[i]] ELSE <<>>,
            shape |-> IF Len(s.val[ls[i]]) = 1 THEN <<>> ELSE s.shape[ls[i]],
            con |-> LeafCons(s, ls[i]), tag |-> IF tags = 1 THEN LeafTags(s, ls[i]) ELSE <<>>]]]
Detail(s, addr, tags) ==
    LET ls == Dedup([i \in DOMAIN addr |-> addr[i][1]])
        Row(e) == [n |-> Index(s.shape[e[1]], e[2] - 1), v |-> <<s.val[e[1]][e[2]]>>, shape |-> <<>>,
                   con |-> ElemCons(s, e), tag |-> IF tags = 1 THEN ElemTags(s, e) ELSE <<>>]
    IN [i \in DOMAIN ls |-> [h |-> HName(s, ls[i]),
            rows |-> MapSeq(Filter(addr, LAMBDA e : e[1] = ls[i]), Row)]]
PrintNode(s, t) == IF t.k = "o" THEN (IF s.leaf[t.o] THEN 0 ELSE t.o)
                   ELSE IF t.k = "r" /\ Len(Grep(s, t.o, t.re)) = 1 /\ ~s.leaf[Grep(s, t.o, t.re)[1]] THEN Grep(s, t.o, t.re)[1] ELSE 0
\* the header of a model: its objective is the sum of its values
Header(s, o) == [name |-> s.name[o], f |-> Sum(Flat(s, o, s.val)), n |-> Size(s, o), free |-> Len(Free(s, o)), upd |-> IF s.upd[o] THEN 1 ELSE 0]
Printout(s, op) ==
    LET o == PrintNode(s, op.h)
    IN [head |-> IF o # 0 /\ op.models[o] = 1 THEN <<Header(s, o)>> ELSE <<>>,
        tables |-> IF o # 0 THEN <<Summary(s, o, op.html, op.tags)>>
                   ELSE IF Addr(s, op.h) = <<>> THEN <<[h |-> HName(s, op.h.o), rows |-> <<>>]>>
                   ELSE Detail(s, Addr(s, op.h), op.tags)]
\* traversals: down from an object in pre-order; up, ancestor by ancestor from the root, leaving out its own branch
RECURSIVE TravUp(_, _)
TravUp(s, o) == IF s.par[o] = 0 THEN <<>>
                ELSE LET p == s.par[o]
                         ks == Filter(s.kids[p], LAMBDA k : k # o)
                     IN TravUp(s, p) \o <<p>> \o Concat([i \in 1..Len(ks) |-> Pre(s, ks[i])])
Trav(s, op) == CASE op.dir = "down" -> Pre(s, op.o) [] op.dir = "up" -> TravUp(s, op.o)
                 [] op.dir = "flat" -> Leaves(s, op.o) [] op.dir = "num" -> <<Len(s.kids[op.o])>>
\* what is saved: one dataset for each leaf, by its printed dotted name, and the flat array
Under(nm) == [i \in DOMAIN nm |-> IF nm[i] = Dot THEN 95 ELSE nm[i]]
Saved(s, o) == LET ls == Leaves(s, o)
               IN [i \in DOMAIN ls |-> [n |-> Under(RelName(s, o, ls[i], TRUE)), shape |-> s.shape[ls[i]], v |-> s.val[ls[i]]]]
Query(s, op) ==
    CASE op.t = "print" -> IF NoMatch(s, op.h) THEN R(s, "AttributeError") ELSE Ret(s, Printout(s, op))
      [] op.t = "getopt" -> Ret(s, [i \in 1..Len(Free(s, op.o)) |-> Encode(s, Free(s, op.o)[i])])
      [] op.t = "flatnames" -> LET e == IF op.all = 1 THEN Elems(s, op.o) ELSE Free(s, op.o)
                               IN Ret(s, [i \in 1..Len(e) |-> FlatName(s, e[i])])
      [] op.t = "unfixed" -> Ret(s, [i \in 1..Len(Free(s, op.o)) |-> s.val[Free(s, op.o)[i][1]][Free(s, op.o)[i][2]]])
      [] op.t = "fixedat" -> LET a == Addr(s, op.h) IN Ret(s, <<IF \A i \in DOMAIN a : s.fix[a[i][1]][a[i][2]] THEN 1 ELSE 0>>)
      [] op.t = "isfixed" -> Ret(s, <<IF AllFixed(s, op.o) THEN 1 ELSE 0>>)
      [] op.t = "read" -> IF NoMatch(s, op.q) THEN R(s, "AttributeError")
                          ELSE LET a == Addr(s, op.q) IN Ret(s, [i \in DOMAIN a |-> s.val[a[i][1]][a[i][2]]])
      [] op.t = "compare" -> IF NoMatch(s, op.q) THEN R(s, "AttributeError") ELSE
                             LET a == Addr(s, op.q)
                                 w == Bcast(op.v, Len(a))
                                 B(x, y) == CASE op.f = "lt" -> x < y [] op.f = "le" -> x <= y
                                              [] op.f = "gt" -> x > y [] op.f = "ge" -> x >= y
                                              [] op.f = "eq" -> x = y [] op.f = "ne" -> x # y
                             IN Ret(s, [i \in DOMAIN a |-> IF B(s.val[a[i][1]][a[i][2]], w[i]) THEN 1 ELSE 0])
      [] op.t = "rawname" -> Ret(s, RawName(s, op.o))
      [] op.t = "pnames" ->
            LET q == IF op.rec = 1 \/ s.leaf[op.o] THEN Leaves(s, op.o) ELSE s.kids[op.o]
                Own == IF op.adj = 1 THEN Adjust(s.name[op.o]) ELSE s.name[op.o]
                Nm(x) == (IF op.slf = 1 /\ ~s.leaf[op.o] THEN Own \o <<Dot>> ELSE <<>>)
                         \o RelName(s, op.o, x, op.adj = 1)
            IN Ret(s, [i \in DOMAIN q |-> Nm(q[i])])
      [] op.t = "sib" -> LET k == Filter(s.kids[op.o], LAMBDA c : Adjust(s.name[c]) = op.nm)
                         IN Ret(s, <<IF k = <<>> THEN 0 ELSE k[1]>>)
      [] op.t = "optgrad" -> R(s, "ok")
      [] op.t = "grep" -> Ret(s, Grep(s, op.o, op.re))
      [] op.t = "trav" -> LET q == Trav(s, op)      \* given up by the visitor after op.stop objects
                          IN IF op.stop > 0 /\ op.stop < Len(q) THEN Ret(s, SubSeq(q, 1, op.stop)) ELSE Ret(s, q)
      [] op.t = "save" -> Ret(s, [sets |-> Saved(s, op.o), all |-> Flat(s, op.o, s.val)])
      [] op.t = "noop" -> R(s, "ok")

Apply1(s, op) ==
    CASE op.t = "link" -> Link(s, op)
      [] op.t = "unlink" -> Unlink(s, op)
      [] op.t = "set" -> Set(s, op)
      [] op.t = "shift" -> Shift(s, op)
      [] op.t = "rawset" -> RawSet(s, op)
      [] op.t = "nodeset" -> NodeSet(s, op)
      [] op.t = "constrain" -> Constrain(s, op)
      [] op.t = "unconstrain" -> Unconstrain(s, op)
      [] op.t = "fix" -> Fix(s, op)
      [] op.t = "unfix" -> Unfix(s, op)
      [] op.t \in {"tag", "untag"} -> Tag(s, op)
      [] op.t = "setopt" -> SetOpt(s, op)
      [] op.t = "randomize" -> Randomize(s, op)
      [] op.t \in {"updates", "toggle"} -> Updates(s, op)
      [] op.t = "trigger" -> Trigger(s, op)
      [] op.t = "setgrad" -> SetGrad(s, op)
      [] op.t = "rename" -> Rename(s, op)
      [] op.t = "copy" -> Copy(s, op)
      [] op.t = "initialize" -> Init1(s, op)
      [] OTHER -> Query(s, op)

\* creating a node which links, constrains or fixes its parts in its constructor
NewNode(s, op) ==
    LET e(f, x) == Append(f, x)
    IN [s EXCEPT !.n = @ + 1, !.leaf = e(@, FALSE), !.shape = e(@, <<>>), !.par = e(@, 0), !.kids = e(@, <<>>),
                 !.val = e(@, <<>>), !.con = e(@, <<>>), !.fix = e(@, <<>>), !.tag = e(@, <<>>), !.name = e(@, op.nm),
                 !.upd = e(@, TRUE), !.ini = e(@, FALSE), !.grd = e(@, <<>>)]
RECURSIVE RunAll(_, _)
RunAll(s, ops) == IF ops = <<>> THEN s ELSE RunAll(Apply1(s, Head(ops)).s, Tail(ops))
Build(s, op) ==
    LET s1 == RunAll(NewNode(s, op), op.subs)
    IN IF op.ini = 1 THEN Init1(s1, [o |-> s1.n]) ELSE Done(s1, {}, FALSE)
Apply(s, op) == IF op.t = "build" THEN Build(s, op) ELSE Apply1(s, op)

-----------------------------------------------------------------------------
(* initial state from a pool of unconnected objects                             *)
Init0(pool) ==
    LET n == Len(pool) IN
    [n |-> n,
     leaf |-> [i \in 1..n |-> pool[i].leaf = 1],
     shape |-> [i \in 1..n |-> pool[i].shape],
     par |-> [i \in 1..n |-> 0],
     kids |-> [i \in 1..n |-> <<>>],
     val |-> [i \in 1..n |-> IF pool[i].dc # "none" THEN [k \in DOMAIN pool[i].val |-> InitV(pool[i].dc, pool[i].val[k])] ELSE pool[i].val],
     con |-> [i \in 1..n |-> [k \in 1..Len(pool[i].val) |-> pool[i].dc]],
     fix |-> [i \in 1..n |-> [k \in 1..Len(pool[i].val) |-> FALSE]],
     tag |-> [i \in 1..n |-> [k \in 1..Len(pool[i].val) |-> {}]],
     name |-> [i \in 1..n |-> pool[i].name],
     upd |-> [i \in 1..n |-> TRUE],
     ini |-> [i \in 1..n |-> pool[i].leaf = 1 \/ pool[i].ini = 1],
     grd |-> [i \in 1..n |-> [k \in 1..Len(pool[i].val) |-> ANY]]]

-----------------------------------------------------------------------------
(* what can be observed                                                         *)
Obs(s, f) ==
    CASE f = "par" -> s.par
      [] f = "kids" -> s.kids
      [] f = "size" -> [o \in Objs(s) |-> Size(s, o)]
      [] f = "val" -> [o \in Objs(s) |-> Flat(s, o, s.val)]
      [] f = "con" -> [o \in Objs(s) |-> LET e == Elems(s, o) IN
                          [i \in DOMAIN e |-> IF s.con[e[i][1]][e[i][2]] = "none" THEN <<>> ELSE <<s.con[e[i][1]][e[i][2]]>>]]
      [] f = "fix" -> [o \in Objs(s) |-> LET e == Elems(s, o) IN [i \in DOMAIN e |-> IF s.fix[e[i][1]][e[i][2]] THEN 1 ELSE 0]]
      [] f = "tag" -> [o \in Objs(s) |-> LET e == Elems(s, o) IN [i \in DOMAIN e |-> s.tag[e[i][1]][e[i][2]]]]
      [] f = "grd" -> [o \in Objs(s) |-> Flat(s, o, s.grd)]
      [] f = "upd" -> [o \in Objs(s) |-> IF s.upd[o] THEN 1 ELSE 0]
      [] f = "name" -> s.name

=============================================================================
