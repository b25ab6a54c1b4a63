------------------------------- MODULE ObsAr -------------------------------
(* Observable arrays.  mem[b] is the contents of the memory block b, kind[b]   *)
(* "f" or "i" (floats or integers; the contents here are whole numbers), and   *)
(* hs[h] a handle: [b |-> block, pos |-> positions in it in row-major order,    *)
(* shape, ol |-> its list of observers].  Views share the memory and the list   *)
(* of observers.  regs[ol] lists registrations (see Observers).                 *)
EXTENDS Observers, Bitwise

Empty == [mem |-> <<>>, kind |-> <<>>, hs |-> <<>>, regs |-> <<>>]
Val(st, h) == [i \in 1..Len(st.hs[h].pos) |-> st.mem[st.hs[h].b][st.hs[h].pos[i]]]
Kind(st, h) == st.kind[st.hs[h].b]

-----------------------------------------------------------------------------
(* broadcasting *)
Strides(shape) == [d \in 1..Len(shape) |-> Prod(SubSeq(shape, d + 1, Len(shape)))]
FitsInto(from, to) == Len(from) <= Len(to)
    /\ \A k \in 1..Len(from) : from[k] \in {1, to[k + Len(to) - Len(from)]}
\* for each element of an array of shape `to` the element (1 based) of the one of shape `from`
Bcast(from, to) ==
    LET st == Strides(to)
        sf == Strides(from)
        off == Len(to) - Len(from)
    IN [i \in 1..Prod(to) |-> 1 + Sum([k \in 1..Len(from) |->
            IF from[k] = 1 THEN 0 ELSE (((i - 1) \div st[k + off]) % to[k + off]) * sf[k]])]
Dim(s, n, k) == IF k > n - Len(s) THEN s[k - (n - Len(s))] ELSE 1
OutShape(s1, s2) ==
    LET n == Max(Len(s1), Len(s2))
    IN [k \in 1..n |-> IF Dim(s1, n, k) = 1 THEN Dim(s2, n, k) ELSE Dim(s1, n, k)]
Fits(s1, s2) ==
    LET n == Max(Len(s1), Len(s2))
    IN \A k \in 1..n : Dim(s1, n, k) = Dim(s2, n, k) \/ Dim(s1, n, k) = 1 \/ Dim(s2, n, k) = 1

\* operands: a number, an array or a handle
OShape(st, v) == CASE v.k = "s" -> <<>> [] v.k = "a" -> v.shape [] v.k = "h" -> st.hs[v.h].shape
OVal(st, v) == CASE v.k = "s" -> <<v.x>> [] v.k = "a" -> v.x [] v.k = "h" -> Val(st, v.h)
OKind(st, v) == IF v.k = "h" THEN Kind(st, v.h) ELSE v.kind

-----------------------------------------------------------------------------
(* arithmetic on whole numbers; "div" is given the reciprocal of the divisor *)
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
FDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
B(x) == IF x THEN 1 ELSE 0
F(f, a, b) ==
    CASE f = "add" -> a + b [] f = "sub" -> a - b [] f = "mul" -> a * b [] f = "div" -> a * b
      [] f = "fdiv" -> FDiv(a, b) [] f = "mod" -> a - b * FDiv(a, b) [] f = "pow" -> Pow(a, b)
      [] f = "lsh" -> a * Pow(2, b) [] f = "rsh" -> a \div Pow(2, b)
      [] f = "and" -> a & b [] f = "or" -> a | b [] f = "xor" -> a ^^ b
      [] f = "max" -> Max(a, b) [] f = "min" -> Min(a, b)
      [] f = "eq" -> B(a = b) [] f = "ne" -> B(a # b) [] f = "lt" -> B(a < b)
      [] f = "le" -> B(a <= b) [] f = "gt" -> B(a > b) [] f = "ge" -> B(a >= b)
Bits == {"lsh", "rsh", "and", "or", "xor"}
Un(f, a) ==
    CASE f = "neg" -> -a [] f = "pos" -> a [] f = "abs" -> Abs(a) [] f = "square" -> a * a
      [] f = "sign" -> (IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0)
      [] f = "not" -> B(a = 0) [] f = "isfinite" -> 1
Red(f, q) ==
    CASE f = "sum" -> Sum(q) [] f = "prod" -> Prod(q)
      [] f = "max" -> (CHOOSE x \in Range(q) : \A y \in Range(q) : y <= x)
      [] f = "min" -> (CHOOSE x \in Range(q) : \A y \in Range(q) : y >= x)
      [] f = "any" -> B(\E x \in Range(q) : x # 0) [] f = "all" -> B(\A x \in Range(q) : x # 0)
      [] f = "ptp" -> (CHOOSE x \in Range(q) : \A y \in Range(q) : y <= x) - (CHOOSE x \in Range(q) : \A y \in Range(q) : y >= x)
\* a 2-dimensional r x n times n x m
MatMul(a, b, r, n, m) == [i \in 1..(r * m) |->
    Sum([k \in 1..n |-> a[((i - 1) \div m) * n + k] * b[(k - 1) * m + ((i - 1) % m) + 1]])]
\* sums (or other reductions) along axis d
RedAxis(f, q, shape, d) ==
    LET s == Strides(shape)
        outer == Prod(SubSeq(shape, 1, d - 1))
        inner == s[d]
    IN [i \in 1..(outer * inner) |-> Red(f, [k \in 1..shape[d] |->
            q[((i - 1) \div inner) * shape[d] * inner + (k - 1) * inner + ((i - 1) % inner) + 1]])]

BinVal(st, f, h, v, rev) ==
    LET s1 == st.hs[h].shape
        s2 == OShape(st, v)
        to == OutShape(s1, s2)
        x == Val(st, h)
        y == OVal(st, v)
        p == Bcast(s1, to)
        q == Bcast(s2, to)
    IN [i \in 1..Prod(to) |-> IF rev = 1 THEN F(f, y[q[i]], x[p[i]]) ELSE F(f, x[p[i]], y[q[i]])]

-----------------------------------------------------------------------------
\* the contents of the block of h when its elements at `sel` (0 based, in row-major order) get vals
Put(st, h, sel, vals) ==
    LET hd == st.hs[h]
    IN [st EXCEPT !.mem[hd.b] = [p \in DOMAIN @ |->
            IF \E i \in DOMAIN sel : hd.pos[sel[i] + 1] = p
            THEN vals[CHOOSE i \in DOMAIN sel : /\ hd.pos[sel[i] + 1] = p
                                                /\ \A j \in DOMAIN sel : hd.pos[sel[j] + 1] = p => j <= i]
            ELSE @[p]]]
All(st, h) == [i \in 1..Len(st.hs[h].pos) |-> i - 1]
\* what is assigned to n elements: one number, all of them, or the selected elements of a handle
Source(st, v, n) ==
    CASE v.k = "s" -> Const(n, v.x)
      [] v.k = "a" -> v.x
      [] v.k = "h" -> [i \in 1..n |-> Val(st, v.h)[SelIdx(st.hs[v.h].shape, v.sel)[i] + 1]]

IopFails(st, h, f, v) ==
    \/ f \in Bits /\ ("f" \in {Kind(st, h), OKind(st, v)})
    \/ f = "div" /\ Kind(st, h) = "i"
    \/ Kind(st, h) = "i" /\ OKind(st, v) = "f"
    \/ ~FitsInto(OShape(st, v), st.hs[h].shape)
IopVal(st, h, f, v) ==
    IF f = "mat" THEN LET n == st.hs[h].shape[1] IN MatMul(Val(st, h), OVal(st, v), n, n, n)
    ELSE BinVal(st, f, h, v, 0)

NewHandle(st, b, pos, shape, ol) == [st EXCEPT !.hs = Append(@, [b |-> b, pos |-> pos, shape |-> shape, ol |-> ol])]
NewArray(st, kind, shape, vals) ==
    LET s == [st EXCEPT !.mem = Append(@, vals), !.kind = Append(@, kind), !.regs = Append(@, <<>>)]
    IN NewHandle(s, Len(s.mem), [i \in 1..Len(vals) |-> i], shape, Len(s.regs))

\* results [st, out, rounds]: rounds lists the notifications, each [h |-> notifying handle, 0 if it has no
\* name, ol |-> the list of observers it calls, mem |-> all contents at that time]
Round(st, h, ol) == [h |-> h, ol |-> ol, mem |-> st.mem]
Res(st, out, rounds) == [st |-> st, out |-> out, rounds |-> rounds]
Announced(st, h) == Res(st, "ok", <<Round(st, h, st.hs[h].ol)>>)

Perform(st, op) ==
    CASE op.t = "new" -> Res(NewArray(st, op.kind, op.shape, op.x), "ok", <<>>)
      [] op.t = "view" ->
            LET hd == st.hs[op.h]
                idx == SelIdx(hd.shape, op.sel)
            IN Res(NewHandle(st, hd.b, [i \in 1..Len(idx) |-> hd.pos[idx[i] + 1]], op.shape, hd.ol), "ok", <<>>)
      [] op.t = "trans" ->
            LET hd == st.hs[op.h]
                n == hd.shape[1]
                m == hd.shape[2]
            IN Res(NewHandle(st, hd.b, [i \in 1..(n * m) |-> hd.pos[((i - 1) % n) * m + ((i - 1) \div n) + 1]], <<m, n>>, hd.ol), "ok", <<>>)
      [] op.t = "reshape" -> Res(NewHandle(st, st.hs[op.h].b, st.hs[op.h].pos, op.shape, st.hs[op.h].ol), "ok", <<>>)
      [] op.t = "copy" -> Res(NewArray(st, Kind(st, op.h), st.hs[op.h].shape, Val(st, op.h)), "ok", <<>>)
      [] op.t = "set" ->
            LET idx == SelIdx(st.hs[op.h].shape, op.sel)
            IN Announced(Put(st, op.h, idx, Source(st, op.v, Len(idx))), op.h)
      [] op.t = "raw" ->
            LET idx == SelIdx(st.hs[op.h].shape, op.sel)
            IN Res(Put(st, op.h, idx, Source(st, op.v, Len(idx))), "ok", <<>>)
      [] op.t = "iop" ->
            IF IopFails(st, op.h, op.f, op.v) THEN Res(st, "fails", <<>>)
            ELSE Announced(Put(st, op.h, All(st, op.h), IopVal(st, op.h, op.f, op.v)), op.h)
      [] op.t = "siop" ->     \* a[sel] += v: takes a part of a, changes it in place and assigns it to the part of a
            LET hd == st.hs[op.h]
                idx == SelIdx(hd.shape, op.sel)
                src == Source(st, op.v, Len(idx))
                s2 == Put(st, op.h, idx, [i \in 1..Len(idx) |-> F(op.f, Val(st, op.h)[idx[i] + 1], src[i])])
                last == Round(s2, op.h, hd.ol)
            IN IF op.part = "view" THEN Res(s2, "ok", <<Round(s2, 0, hd.ol), last>>)
               ELSE IF op.part = "copy" THEN Res(s2, "ok", <<Round(st, 0, hd.ol), last>>)
               ELSE Res(s2, "ok", <<last>>)
      [] op.t = "addobs" -> Res([st EXCEPT !.regs[st.hs[op.h].ol] = AddReg(@, [p |-> op.p, o |-> op.o, c |-> op.c])], "ok", <<>>)
      [] op.t = "remobs" -> Res([st EXCEPT !.regs[st.hs[op.h].ol] = RemObs(@, op.o)], "ok", <<>>)
      [] op.t = "setfail" -> Res(st, "fails", <<>>)
      [] OTHER -> Res(st, "ok", <<>>)

\* results of expressions: [shape, x]
Result(st, op) ==
    CASE op.t = "bin" -> [shape |-> OutShape(st.hs[op.h].shape, OShape(st, op.v)), x |-> BinVal(st, op.f, op.h, op.v, op.rev)]
      [] op.t = "un" -> [shape |-> st.hs[op.h].shape, x |-> MapSeq(Val(st, op.h), LAMBDA a : Un(op.f, a))]
      [] op.t = "red" ->
            IF op.axis = 0 THEN [shape |-> <<>>, x |-> <<Red(op.f, Val(st, op.h))>>]
            ELSE LET s == st.hs[op.h].shape
                 IN [shape |-> SubSeq(s, 1, op.axis - 1) \o SubSeq(s, op.axis + 1, Len(s)), x |-> RedAxis(op.f, Val(st, op.h), s, op.axis)]
      [] op.t = "mat" ->
            LET s1 == st.hs[op.h].shape
                s2 == OShape(st, op.v)
                r == IF Len(s1) = 1 THEN 1 ELSE s1[1]
                m == IF Len(s2) = 1 THEN 1 ELSE s2[2]
            IN [shape |-> (IF Len(s1) = 1 THEN <<>> ELSE <<r>>) \o (IF Len(s2) = 1 THEN <<>> ELSE <<m>>),
                x |-> MatMul(Val(st, op.h), OVal(st, op.v), r, s2[1], m)]
      [] op.t = "get" ->
            LET idx == SelIdx(st.hs[op.h].shape, op.sel) IN [shape |-> op.shape, x |-> [i \in 1..Len(idx) |-> Val(st, op.h)[idx[i] + 1]]]
Exprs == {"bin", "un", "red", "mat"}

\* the calls a sequence of notifications makes: [c, s (the handle), m (the contents seen)]
Calls(st, rounds) == Concat([k \in 1..Len(rounds) |->
    [i \in 1..Len(st.regs[rounds[k].ol]) |-> [c |-> st.regs[rounds[k].ol][i].c, s |-> rounds[k].h, m |-> rounds[k].mem]]])
=============================================================================
