------------------------------ MODULE CacheMC -------------------------------
EXTENDS Cache, TLC, Json, IOUtils, CSV
CONSTANTS Names, Sizes, Limits, MaxOps, Emit
VARIABLES hist, ops
allvars == <<vars, hist, ops>>
Init == /\ has = {} /\ body = [n \in Names |-> << >>] /\ ord = [n \in Names |-> 0] /\ clock = 0
        /\ limit \in Limits
        /\ hist = IF Emit THEN <<[op |-> "limit", k |-> limit]>> ELSE << >>
        /\ ops = 0
Do(ev) == /\ hist' = IF Emit THEN Append(hist, ev) ELSE hist
          /\ ops' = ops + 1
Next == /\ ops < MaxOps
        /\ \/ \E n \in Names, m \in {"w", "a"}, k \in Sizes, fail \in BOOLEAN :
                /\ Write(n, m, IF k = 0 THEN << >> ELSE <<[t |-> clock + 1, n |-> k]>>)
                /\ Do([op |-> "write", n |-> n, mode |-> m, k |-> k, fail |-> fail])
           \/ \E n \in Names : Remove(n) /\ Do([op |-> "remove", n |-> n])
           \/ \E n \in Names : n \notin has /\ UNCHANGED vars /\ Do([op |-> "read", n |-> n])
           \/ \E k \in Limits : k # limit /\ Reopen(k) /\ Do([op |-> "reopen", k |-> k])
Spec == Init /\ [][Next]_allvars
(* for model checking: only the order matters *)
View == <<has, [n \in Names |-> Total(body[n])], [n \in Names |-> Cardinality({m \in Names : ord[m] < ord[n]})], limit, ops>>
EmitDone == ops = MaxOps => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.GEN_OUT)
=============================================================================
