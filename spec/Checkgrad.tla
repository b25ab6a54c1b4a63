----------------------------- MODULE Checkgrad -----------------------------
(* Checking gradients.  A model has leaves with sz[i] values, numbered 1, 2, ... in *)
(* flat order; the leaves below[1] (a sequence of leaf numbers) stand under a node. *)
(* The gradient is wrong at the positions `wrong`; `fixed` positions are not free.  *)
EXTENDS PySeq
Offset(sz, i) == Sum(SubSeq(sz, 1, i - 1))
Leaf(sz, i) == (Offset(sz, i) + 1)..(Offset(sz, i) + sz[i])
All(sz) == 1..Sum(sz)
\* the positions a handle stands for
Covered(sz, node, h) ==
    CASE h.t = "model" -> All(sz)
      [] h.t = "node" -> UNION {Leaf(sz, i) : i \in Range(node)}
      [] h.t = "leaf" -> Leaf(sz, h.i)
      [] h.t = "part" -> {Offset(sz, h.i) + 1 + j : j \in Range(h.at)}
      [] h.t = "regex" -> UNION {Leaf(sz, i) : i \in Range(h.is)}
Verdict(covered, fixed, wrong) == (covered \ fixed) \cap wrong = {}
=============================================================================
