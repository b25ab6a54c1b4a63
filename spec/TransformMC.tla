---------------------------- MODULE TransformMC ----------------------------
(* NV variables, a few keys: every operation in every reachable state (object   *)
(* ids renamed by age).                                                         *)
EXTENDS Transform, Json
CONSTANTS NV, DEPTH
VARIABLES st, hist
vars == <<st, hist>>
K(c, a, b) == [c |-> c, l |-> a, u |-> b]
Keys == {K("Logexp", 0, 0), K("Own", 0, 0), K("SubLogexp", 0, 0), K("Logistic", 0, 1), K("Logistic", -1, 1), K("SubLogistic", 0, 1), K("Logistic", 1, 0)}
Init == st = Start(NV) /\ hist = <<>>
Do(op) == /\ Len(hist) < DEPTH
          /\ st' = Effect(st, op)
          /\ hist' = Append(hist, op)
          /\ PrintT("SCRIPT " \o ToJson(hist'))
Next ==
    \/ \E v \in 1..NV : \E key \in Keys : Do([t |-> "make", v |-> v, key |-> key])
    \/ \E v \in 1..NV : Do([t |-> "drop", v |-> v])
    \/ \E v, w \in 1..NV : \E how \in {"deepcopy", "pickle", "param", "reload"} :
          v # w /\ st.vars[w].obj # 0 /\ Do([t |-> how, v |-> v, w |-> w])
Spec == Init /\ [][Next]_vars
View == <<[v \in DOMAIN st.vars |-> st.vars[v].key], [k \in DOMAIN st.kept |-> st.kept[k].c], Len(hist)>>
\* equal transformations are one object, different ones are not
OneObject == \A v, w \in DOMAIN st.vars : (st.vars[v].obj # 0 /\ st.vars[w].obj # 0) => ((st.vars[v].key = st.vars[w].key) <=> Same(st, v, w))
=============================================================================
