------------------------------ MODULE ObsArMC ------------------------------
(* A 2 x 2 array, up to MAXH handles of it, two observers; contents 0..2 at first. *)
EXTENDS ObsAr, Json
CONSTANTS MAXH, DEPTH
VARIABLES st, hist
vars == <<st, hist>>
S(a, ha, b, hb, k) == [t |-> "s", a |-> a, b |-> b, k |-> k, ha |-> ha, hb |-> hb]
Sel(at) == [full |-> 0, mask |-> <<>>, at |-> at]
N(v) == [t |-> "n", v |-> v]
I(v) == [t |-> "i", v |-> v]
Scalar(x) == [k |-> "s", x |-> x, kind |-> "i"]
FNew == [t |-> "new", kind |-> "f", shape |-> <<2, 2>>, x |-> <<1, 2, 0, 3>>]
Obs == [t |-> "addobs", h |-> 1, o |-> 1, c |-> 1, p |-> 0]
Init == /\ st = Perform(Perform(Empty, FNew).st, Obs).st
        /\ hist = <<FNew, Obs>>
Views == {[sel |-> Sel(<<S(0, 0, 1, 1, 1)>>), shape |-> <<1, 2>>, nd |-> 2],
          [sel |-> Sel(<<FullSlice, N(1)>>), shape |-> <<2>>, nd |-> 2],
          [sel |-> Sel(<<FullSlice, S(0, 0, 0, 0, -1)>>), shape |-> <<2, 2>>, nd |-> 2],
          [sel |-> Sel(<<N(1)>>), shape |-> <<2>>, nd |-> 2],
          [sel |-> Sel(<<S(0, 0, 1, 1, 1)>>), shape |-> <<1>>, nd |-> 1]}
Sels(nd) == {Sel(<<FullSlice>>), Sel(<<N(0)>>), Sel(<<I(<<1, 0>>)>>)} \cup
            (IF nd = 2 THEN {Sel(<<N(0), N(1)>>), Sel(<<I(<<0, 1>>), I(<<1, 0>>)>>)} ELSE {})
Whole(s, h) == s.hs[h].shape = <<2, 2>>
Part(s, h, sel) == IF Cardinality({i \in DOMAIN sel.at : sel.at[i].t = "i"}) > 0 THEN "copy"
                   ELSE IF Cardinality({i \in DOMAIN sel.at : sel.at[i].t = "n"}) = Len(s.hs[h].shape) THEN "number" ELSE "view"
Possible(s, op) ==
    CASE op.t \in {"view", "trans", "reshape"} -> Len(s.hs) < MAXH
      [] op.t = "copy" -> Len(s.hs) < MAXH
      [] OTHER -> TRUE
H(s) == 1..Len(s.hs)
Ops(s) ==
    UNION {{[t |-> "view", h |-> h, sel |-> v.sel, shape |-> v.shape] :
              v \in {x \in Views : x.nd = Len(s.hs[h].shape) /\ (x.nd = 2 => s.hs[h].shape = <<2, 2>>) /\ (x.nd = 1 => s.hs[h].shape = <<2>>)}} : h \in H(s)}
    \cup {[t |-> "trans", h |-> h] : h \in {x \in H(s) : Whole(s, x)}}
    \cup {[t |-> "copy", h |-> h, how |-> how] : h \in H(s), how \in {"copy", "pickle"}}
    \cup UNION {{[t |-> "set", h |-> h, sel |-> sel, v |-> Scalar(2)] : sel \in {x \in Sels(Len(s.hs[h].shape)) : Prod(s.hs[h].shape) = 2 ^ Len(s.hs[h].shape)}} : h \in H(s)}
    \cup UNION {{[t |-> "siop", h |-> h, sel |-> sel, f |-> "add", v |-> Scalar(1), part |-> Part(s, h, sel)] :
              sel \in {x \in Sels(Len(s.hs[h].shape)) : Prod(s.hs[h].shape) = 2 ^ Len(s.hs[h].shape)}} : h \in H(s)}
    \cup {[t |-> "raw", h |-> h, sel |-> Sel(<<FullSlice>>), v |-> Scalar(1)] : h \in H(s)}
    \cup {[t |-> "iop", h |-> h, f |-> f, v |-> Scalar(2)] : h \in H(s), f \in {"add", "mod", "and"}}
    \cup {[t |-> "iop", h |-> h, f |-> "sub", v |-> [k |-> "h", h |-> g]] : h \in H(s), g \in H(s)}
    \cup {[t |-> "iop", h |-> h, f |-> "mat", v |-> [k |-> "h", h |-> g]] : h \in {x \in H(s) : Whole(s, x)}, g \in {x \in H(s) : Whole(s, x)}}
    \cup {[t |-> "addobs", h |-> h, o |-> 2, c |-> 2, p |-> 1] : h \in {x \in H(s) : Len(s.regs[s.hs[x].ol]) < 2}}
    \cup {[t |-> "remobs", h |-> h, o |-> 1] : h \in H(s)}
    \cup {[t |-> "same", h |-> h] : h \in H(s)}
Last == [t |-> "set", h |-> 1, sel |-> Sel(<<FullSlice>>), v |-> Scalar(1)]
Next == \E op \in {o \in Ops(st) : Possible(st, o)} :
    /\ Len(hist) < DEPTH + 2
    /\ st' = Perform(st, op).st
    /\ hist' = Append(hist, op)
    /\ PrintT("SCRIPT " \o ToJson(Append(hist', Last)))
Spec == Init /\ [][Next]_vars
View == <<st, Len(hist)>>
\* no operation reaches another block of memory, and within one only the addressed elements
Sane == \A h \in H(st) : \A i \in DOMAIN st.hs[h].pos : st.hs[h].pos[i] \in DOMAIN st.mem[st.hs[h].b]
Local == \A op \in Ops(st) :
    LET r == Perform(st, op)
    IN op.t \in {"set", "siop", "iop", "raw"} =>
         /\ \A b \in DOMAIN st.mem : b # st.hs[op.h].b => r.st.mem[b] = st.mem[b]
         /\ \A p \in DOMAIN st.mem[st.hs[op.h].b] : p \notin Range(st.hs[op.h].pos) => r.st.mem[st.hs[op.h].b][p] = st.mem[st.hs[op.h].b][p]
         \* the last to be told is told what is there now
         /\ r.rounds # <<>> => r.rounds[Len(r.rounds)].mem = r.st.mem
         \* what has changed has been announced, unless behind the back of the array
         /\ (op.t # "raw" /\ r.st.mem # st.mem) => r.rounds # <<>>
         /\ \A g \in H(st) : st.hs[g].b = st.hs[op.h].b => st.hs[g].ol = st.hs[op.h].ol
Inv == Sane /\ Local
=============================================================================
