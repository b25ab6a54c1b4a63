----------------------------- MODULE FailuresMC -----------------------------
(* All sequences of up to DEPTH evaluations that succeed or fail in some stage. *)
EXTENDS Failures, Json
CONSTANTS LIMIT, DEPTH, STAGES, ERR
VARIABLES count, hist
vars == <<count, hist>>
Ops == {o \in [kind : KINDS, u : STAGES, o : STAGES, g : STAGES] :
          /\ Cardinality({f \in {"u", "o", "g"} : o[f] # ""}) <= 1
          /\ o.kind = "obj" => o.g = ""
          /\ o.kind = "grads" => o.o = ""}
Init == count = 0 /\ hist = <<>>
Next == \E o \in Ops :
    /\ Len(hist) < DEPTH
    /\ LET r == Outcome(o, count, LIMIT)
       IN /\ count' = r.count
          /\ hist' = Append(hist, [kind |-> o.kind, u |-> o.u, o |-> o.o, g |-> o.g, r |-> CHOOSE x \in r.out : TRUE])
    /\ (Len(hist') = DEPTH) => PrintT("SCRIPT " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars
Bad(i) == hist[i].r # "ok"
Numeric(i) == \A e \in Range(Met(hist[i])) : e \in NUMERIC
\* an error is raised iff it is another one or the last LIMIT + 1 numerical evaluations failed
Inv ==
    /\ count \in 0..LIMIT
    /\ \A i \in DOMAIN hist :
         LET met == Range(Met(hist[i]))
             before == {j \in 1..i : Bad(j) /\ Numeric(j) /\ \A l \in j..i : Bad(l)}
         IN /\ (hist[i].r = "ok") = (met = {})
            /\ met # {} => (hist[i].r \in met) = (~Numeric(i) \/ Cardinality(before) > LIMIT)
=============================================================================
