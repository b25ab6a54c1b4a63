---------------------------- MODULE CheckgradMC ----------------------------
(* Every set of wrong entries, every set of fixed values, every handle of a model. *)
EXTENDS Checkgrad, Json
CONSTANTS SIZES
VARIABLES done, sz, node
vars == <<done, sz, node>>
Nodes(s) == {<<>>} \cup {AscSeq(S) : S \in {a..b : a, b \in DOMAIN s} \ {{}}}
Parts(n) == {AscSeq(S) : S \in SUBSET (0..(n - 1))}
Handles(s, nd) ==
    {[t |-> "model"]} \cup (IF nd = <<>> THEN {} ELSE {[t |-> "node"]})
    \cup {[t |-> "leaf", i |-> i] : i \in DOMAIN s}
    \cup UNION {{[t |-> "part", i |-> i, at |-> p] : p \in {q \in Parts(s[i]) : Len(q) > 0 /\ Len(q) < s[i]}} : i \in DOMAIN s}
    \cup {[t |-> "regex", is |-> AscSeq(S)] : S \in {X \in SUBSET DOMAIN s : Cardinality(X) > 1}}
Init == done = FALSE /\ sz \in SIZES /\ node \in Nodes(sz)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<sz, node>>
        /\ \A w \in SUBSET All(sz) : \A f \in SUBSET All(sz) : \A h \in Handles(sz, node) :
              LET c == Covered(sz, node, h) IN
              /\ PrintT("SCRIPT " \o ToJson([sz |-> sz, node |-> node, wrong |-> AscSeq(w), fixed |-> AscSeq(f), h |-> h]))
              \* laws: nothing free, nothing to fail; more wrong entries or a larger handle never turn a failure into a pass
              /\ (c \subseteq f => Verdict(c, f, w))
              /\ (Verdict(c, f, w) => \A x \in SUBSET w : Verdict(c, f, x))
              /\ (Verdict(All(sz), f, w) => Verdict(c, f, w))
              /\ (Verdict(c, f, w) <=> \A p \in c : Verdict({p}, f, w))
Sizes == {<<2, 1>>, <<1, 2>>, <<1, 1, 1>>}
Sizes4 == {<<2, 1, 1>>, <<1, 2, 1>>, <<2, 2>>, <<4>>, <<1, 3>>}
Spec == Init /\ [][Next]_vars
Laws == TRUE
=============================================================================
