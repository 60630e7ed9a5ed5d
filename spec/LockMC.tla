------------------------------- MODULE LockMC -------------------------------
EXTENDS Lock, TLC, Json, IOUtils, CSV
CONSTANTS MaxOps, MaxDepth, Emit
VARIABLES hist
allvars == <<vars, hist>>
(* 1, 2: threads of process 1 sharing an instance; 3: a thread of process 1 with an instance of its own; *)
(* 4, 5: threads of process 2 sharing an instance                                                         *)
P == <<1, 1, 1, 2, 2>>
Init == proc = P /\ depth = [a \in 1..5 |-> 0] /\ hist = << >>
Do(ev) == hist' = Append(hist, IF Emit THEN ev ELSE 0)
Next == /\ Len(hist) < MaxOps
        /\ \/ \E a \in 1..5 : depth[a] < MaxDepth /\ Try(a) /\ Do([op |-> "try", a |-> a])
           \/ \E a \in 1..5 : Release(a) /\ Do([op |-> "release", a |-> a])
           \/ Crash(2) /\ Do([op |-> "crash", a |-> 0])
Spec == Init /\ [][Next]_allvars
View == <<vars, Len(hist)>>
EmitDone == Len(hist) = MaxOps => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.GEN_OUT)
=============================================================================
