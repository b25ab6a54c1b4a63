------------------------------ MODULE Failures ------------------------------
(* Evaluating objective and gradients for an optimizer while the model fails.  *)
(* The model: values v_1..v_n (integers), objective sum w_i v_i^2, so that the *)
(* gradient is 2 w_i v_i.  Value i is fixed (k_i = 0) or constrained to        *)
(* v_i = k_i x_j where x_j is its entry of the optimizer array.                 *)
EXTENDS PySeq
KINDS == {"obj", "grads", "both"}
\* errors that count as numerical failures (the last two are subclasses of such), and others
NUMERIC == {"LinAlgError", "ZeroDivisionError", "ValueError", "UnicodeError", "Singular"}
OTHERS == {"KeyError", "FloatingPointError", "OverflowError", "TypeError", "RuntimeError"}

Free(m) == AscSeq({i \in 1..Len(m.k) : m.k[i] # 0})
\* the values after writing x
Put(m, v, x) == [i \in 1..Len(v) |-> IF m.k[i] = 0 THEN v[i] ELSE m.k[i] * x[IndexOf(Free(m), i)]]
Obj(m, v) == Sum([i \in 1..Len(v) |-> m.w[i] * v[i] * v[i]])
Grad(m, v) == [j \in 1..Len(Free(m)) |-> LET i == Free(m)[j] IN m.k[i] * 2 * m.w[i] * v[i]]

\* the errors an evaluation meets; op.u, op.o, op.g: the error of the update, the objective, the gradient, or ""
Met(op) == (IF op.u # "" THEN <<op.u>> ELSE IF op.kind # "grads" /\ op.o # "" THEN <<op.o>> ELSE <<>>)
           \o (IF op.kind # "obj" /\ op.g # "" THEN <<op.g>> ELSE <<>>)
\* [out, count]: "ok" (a true evaluation), "failed" (tolerated), or the errors that can be raised
Outcome(op, count, limit) ==
    LET met == Met(op) IN
    IF met = <<>> THEN [out |-> {"ok"}, count |-> 0]
    ELSE IF \E e \in Range(met) : e \in OTHERS THEN [out |-> Range(met), count |-> count]
    ELSE IF count >= limit THEN [out |-> Range(met), count |-> count]
    ELSE [out |-> {"failed"}, count |-> count + 1]
=============================================================================
