---------------------------- MODULE SplitFileMC ----------------------------
EXTENDS SplitFile, TLC, Json, IOUtils, CSV
CONSTANTS MaxPart, NParts, MaxOps, Emit
VARIABLES hist
allvars == <<vars, hist>>

(* byte i of the whole is i; the cuts vary *)
PartsFor(sz) == LET off == [i \in 1..Len(sz) |-> LET S[k \in 0..Len(sz)] == IF k = 0 THEN 0 ELSE S[k-1] + sz[k] IN S[i-1]]
                IN [i \in 1..Len(sz) |-> [k \in 1..sz[i] |-> off[i] + k]]
Init == /\ \E sz \in [1..NParts -> 0..MaxPart] : InitWith(PartsFor(sz))
        /\ hist = << >>
Do(ev) == hist' = Append(hist, IF Emit THEN ev ELSE 0)
Next == /\ Len(hist) < MaxOps /\ ~closed
        /\ \/ \E n \in {-1, 0, 1, 2, 3, 5} : Read(n) /\ Do([op |-> "read", n |-> n])
           \/ \E w \in 0..2, o \in -3..4 : Seek(o, w) /\ Do([op |-> "seek", o |-> o, w |-> w])
           \/ Len(saved) < 2 /\ Enter /\ Do([op |-> "enter"])
           \/ Leave /\ Do([op |-> "leave", exc |-> Len(saved) = 1])
Spec == Init /\ [][Next]_allvars
View == <<parts, pos, closed, saved, Len(hist)>>
EmitDone == Len(hist) = MaxOps =>
   CSVWrite("%1$s", <<ToJson([sizes |-> [i \in 1..Len(parts) |-> Len(parts[i])], ops |-> hist])>>, IOEnv.GEN_OUT)
=============================================================================
