---------------------------- MODULE TimestampMC ----------------------------
EXTENDS Timestamp, TLC, Json, IOUtils, CSV, Randomization
CONSTANTS MaxOps, Emit
VARIABLES hist
allvars == <<vars, hist>>
Do(ev) == hist' = Append(hist, IF Emit THEN ev ELSE 0)
Init == now = <<0, 0, 0>> /\ ref = <<0, 0, 0>> /\ hist = << >>
Next == /\ Len(hist) < MaxOps
        /\ \/ \E d \in 0..1, s \in 0..DAY-1, k \in 0..FS-1 : Set(d, s, k) /\ Do([op |-> "set", d |-> d, s |-> s, k |-> k])
           \/ \E s \in {-DAY, -1, 0, 1, DAY}, k \in {-FS-1, -1, 0, 1, FS} : Shift(s, k) /\ Do([op |-> "shift", s |-> s, k |-> k])
           \/ Mark /\ Do([op |-> "mark"])
Spec == Init /\ [][Next]_allvars
View == <<vars, Len(hist)>>
EmitDone == Len(hist) = MaxOps => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.GEN_OUT)
=============================================================================
