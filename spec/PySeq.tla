------------------------------- MODULE PySeq -------------------------------
(* Python list and numpy index semantics used by the other modules.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

Range(q) == {q[i] : i \in DOMAIN q}
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))
RECURSIVE Concat(_)
Concat(qq) == IF qq = <<>> THEN <<>> ELSE Head(qq) \o Concat(Tail(qq))
MapSeq(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]
Filter(q, P(_)) == SelectSeq(q, P)
Const(n, v) == [i \in 1..n |-> v]
Reverse(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
RECURSIVE AscSeq(_)
AscSeq(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o AscSeq(S \ {m})
IndexOf(q, x) == CHOOSE i \in DOMAIN q : q[i] = x

\* list.insert(idx, x)
InsertPos(n, idx) == IF idx < 0 THEN Max(0, n + idx) ELSE Min(n, idx)
ListInsert(q, idx, x) ==
    LET k == InsertPos(Len(q), idx) IN SubSeq(q, 1, k) \o <<x>> \o SubSeq(q, k + 1, Len(q))
RemoveVal(q, x) == Filter(q, LAMBDA y : y # x)

-----------------------------------------------------------------------------
(* numpy selections.  An atom is one of                                       *)
(*  [t|->"s", a|->, b|->, k|->, ha|->, hb|->]  slice a:b:k (ha/hb: given?)     *)
(*  [t|->"n", v|->int]                       integer                          *)
(*  [t|->"i", v|->Seq(int)]                  one dimensional integer array    *)
(*  [t|->"m", v|->Seq(0/1)]                  boolean mask of one dimension    *)
(*  [t|->"e"]                                Ellipsis                         *)
(* and a selection is [full |-> 0, at |-> Seq(atom)] or a mask of the whole   *)
(* array [full |-> 1, mask |-> Seq(0/1)] in row-major order.                  *)
RECURSIVE Walk(_, _, _)
Walk(i, stop, k) == IF (k > 0 /\ i >= stop) \/ (k < 0 /\ i <= stop) THEN <<>>
                    ELSE <<i>> \o Walk(i + k, stop, k)
SliceIdx(n, at) ==
    LET k == at.k
        Norm(x) == IF x < 0 THEN x + n ELSE x
        lo == IF k > 0 THEN 0 ELSE -1
        hi == IF k > 0 THEN n ELSE n - 1
        Clip(x) == Max(lo, Min(hi, Norm(x)))
        start == IF at.ha = 1 THEN Clip(at.a) ELSE IF k > 0 THEN 0 ELSE n - 1
        stop == IF at.hb = 1 THEN Clip(at.b) ELSE IF k > 0 THEN n ELSE -1
    IN Walk(start, stop, k)
FullSlice == [t |-> "s", a |-> 0, b |-> 0, k |-> 1, ha |-> 0, hb |-> 0]
MaskIdx(m) == AscSeq({i - 1 : i \in {j \in DOMAIN m : m[j] = 1}})
NormIdx(n, i) == IF i < 0 THEN i + n ELSE i

\* atoms for all dimensions: expand the ellipsis, pad at the end
Expand(nd, ats) ==
    LET given == Cardinality({i \in DOMAIN ats : ats[i].t # "e"})
        fill == Const(nd - given, FullSlice)
        e == {i \in DOMAIN ats : ats[i].t = "e"}
    IN IF e = {} THEN ats \o fill
       ELSE LET i == CHOOSE j \in e : TRUE
            IN SubSeq(ats, 1, i - 1) \o fill \o SubSeq(ats, i + 1, Len(ats))

\* all multi indices as flat positions (0 based): axes is a sequence of sequences of
\* "partial flat offsets"; the result enumerates the product row-major.
RECURSIVE Product(_)
Product(axes) ==
    IF axes = <<>> THEN <<0>>
    ELSE LET rest == Product(Tail(axes))
         IN Concat([i \in 1..Len(Head(axes)) |-> [j \in 1..Len(rest) |-> Head(axes)[i] + rest[j]]])

SelIdx(shape, sel) ==
    IF sel.full = 1 THEN MaskIdx(sel.mask)
    ELSE
    LET nd == Len(shape)
        at == Expand(nd, sel.at)
        stride == [d \in 1..nd |-> Prod(SubSeq(shape, d + 1, nd))]
        arr == {d \in 1..nd : at[d].t \in {"i", "m"}}
        adv == IF arr = {} THEN {} ELSE {d \in 1..nd : at[d].t \in {"i", "m", "n"}}
        Idx(d) == CASE at[d].t = "s" -> SliceIdx(shape[d], at[d])
                    [] at[d].t = "n" -> <<NormIdx(shape[d], at[d].v)>>
                    [] at[d].t = "i" -> [j \in 1..Len(at[d].v) |-> NormIdx(shape[d], at[d].v[j])]
                    [] at[d].t = "m" -> MaskIdx(at[d].v)
        lens == {Len(Idx(d)) : d \in adv}
        L == IF lens \subseteq {1} THEN 1 ELSE CHOOSE x \in lens : x # 1
        Off(d) == [j \in 1..Len(Idx(d)) |-> Idx(d)[j] * stride[d]]
        advoff == [j \in 1..L |-> Sum([k \in 1..Cardinality(adv) |->
                      LET d == AscSeq(adv)[k] IN IF Len(Idx(d)) = 1 THEN Off(d)[1] ELSE Off(d)[j]])]
        contiguous == adv = {} \/ \A d \in adv : \A e \in adv : \A x \in 1..nd : (d < x /\ x < e) => x \in adv
        first == IF adv = {} THEN 0 ELSE CHOOSE d \in adv : \A e \in adv : d <= e
        rest == [k \in 1..(nd - Cardinality(adv)) |-> AscSeq((1..nd) \ adv)[k]]
        before == IF contiguous THEN SelectSeq(rest, LAMBDA d : d < first) ELSE <<>>
        after == IF contiguous THEN SelectSeq(rest, LAMBDA d : d > first) ELSE rest
    IN IF adv = {} THEN Product([d \in 1..nd |-> Off(d)])
       ELSE Product([k \in 1..Len(before) |-> Off(before[k])] \o <<advoff>> \o
                    [k \in 1..Len(after) |-> Off(after[k])])
=============================================================================
