--------------------------- MODULE FrameBufferMC ---------------------------
(* Bounded exploration: every sequence of operations up to MaxOps. *)
EXTENDS FrameBuffer, TLC, Json, IOUtils, CSV
CONSTANTS NIds, NTimes, NSegs, MaxPuts, MaxOps, Emit
VARIABLES nput, hist

allvars == <<vars, nput, hist>>

Init == /\ InitWith(1..NIds, NSegs)
        /\ nput = 0
        /\ hist = << >>

Do(ev) == hist' = IF Emit THEN Append(hist, ev) ELSE Append(hist, 0)

DoPut == /\ nput < MaxPuts
         /\ nput' = nput + 1
         /\ \E t \in 1..NTimes, d \in ids :
              /\ Put(t, d, nput + 1)
              /\ Do([op |-> "put", t |-> t, id |-> d, s |-> nput + 1])
DoGet == Get /\ UNCHANGED nput /\ Do([op |-> "get"])
DoGetOldest == GetOldest /\ UNCHANGED nput /\ Do([op |-> "getoldest"])
DoFlush == Flush /\ UNCHANGED nput /\ Do([op |-> "flush"])
DoReset == Reset /\ UNCHANGED nput /\ Do([op |-> "reset"])

Next == /\ Len(hist) < MaxOps
        /\ DoPut \/ DoGet \/ DoGetOldest \/ DoFlush \/ DoReset

Spec == Init /\ [][Next]_allvars

(* once handed out, a slot is never handed out again (until reset) *)
Monotone == [][rel' = << >> \/ Len(rel') >= Len(rel)]_allvars
MarkUp == [][mark' >= mark \/ rel' = << >>]_allvars

View == <<buf, mark, stat, rel, nput, Len(hist)>>

EmitDone == Len(hist) = MaxOps => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.GEN_OUT)
=============================================================================
