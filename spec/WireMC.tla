------------------------------ MODULE WireMC ------------------------------
(* All recordings of up to MaxSlots frames, good, bad and cut short, and all uses of a reader on them. *)
EXTENDS Wire, TLC, Json, IOUtils, CSV
CONSTANTS MaxSlots, MaxOps, Emit, Formats, Drain
VARIABLES kinds, got, last, hist
allvars == <<vars, kinds, got, last, hist>>

Zeros(n) == [i \in 1..n |-> 0]
Z(n) == IF n = 0 THEN << >> ELSE Zeros(n)
Good(f) ==
    CASE f \in {"drx", "drx8"} -> <<222, 192, 222, 92>> \o Z(28)
      [] f = "tbx" -> <<222, 192, 222, 92>> \o Z(12) \o <<0, 64, 0, 4>> \o Z(8)
      [] f = "cor" -> <<222, 192, 222, 92>> \o Z(28)
      [] f = "vdif" -> Z(8) \o <<6, 0, 0, 0>> \o <<0, 0, 0, 28>> \o Z(16)
      [] f = "drspec" -> <<222, 192, 222, 192>> \o Z(41) \o <<9, 0, 0, 2, 0, 0, 0>> \o Z(20) \o <<12, 237, 12, 237>>
PayLen(f) == CASE f = "drx" -> 4096 [] f = "drx8" -> 8192 [] f = "tbx" -> 512 [] f = "cor" -> 1056
               [] f = "vdif" -> 16 [] f = "drspec" -> 32
Bad(f) == IF f = "vdif" THEN [Good(f) EXCEPT ![9] = 3] ELSE [Good(f) EXCEPT ![3] = 99]
Odd(f) == IF f = "vdif" THEN [Good(f) EXCEPT ![16] = 20] ELSE [Good(f) EXCEPT ![46] = 5]
Slot(f, k) == [h |-> CASE k = "bad" -> Bad(f) [] k = "odd" -> Odd(f) [] OTHER -> Good(f),
               n |-> IF k = "short" THEN PayLen(f) - 7 ELSE PayLen(f), a |-> 1, b |-> 0, short |-> k = "short"]

KindSeqs(f) == LET base == {"good", "bad"} \cup (IF f \in {"vdif", "drspec"} THEN {"odd"} ELSE {}) IN
    {ks \in UNION {[1..m -> base \cup {"short"}] : m \in 1..MaxSlots} :
        \A i \in 1..Len(ks) : ks[i] = "short" => i = Len(ks)}
Init == /\ \E f \in Formats : \E ks \in KindSeqs(f) :
            /\ (Drain => \A i \in 1..Len(ks) : ks[i] # "odd")
            /\ kinds = ks /\ InitWith(f, [i \in 1..Len(ks) |-> Slot(f, ks[i])])
        /\ got = << >> /\ last = "" /\ hist = << >>
Do(ev) == hist' = Append(hist, IF Emit THEN ev ELSE 0)

Reading(v) == pos >= 0 /\ \E o \in Outcome(pos) :
    /\ got' = IF o = "OK" THEN Append(got, SlotOf(pos)) ELSE got
    /\ last' = IF o = "EOF" /\ Cardinality(Outcome(pos)) > 1 THEN "maybe" ELSE o
    /\ Read(o) /\ UNCHANGED kinds /\ Do([op |-> "read", v |-> v])
Skipping == /\ last = "SYNC" /\ fmt \notin {"drx", "drx8"} /\ pos >= 0 /\ pos < Total
            /\ Seek(pos + SlotLen(slots[SlotOf(pos)])) /\ last' = "" /\ UNCHANGED <<kinds, got>>
            /\ Do([op |-> "skip"])
Seeking == \E k \in 1..Len(starts) : Seek(starts[k]) /\ last' = "" /\ UNCHANGED <<kinds, got>> /\ Do([op |-> "seek", k |-> k])
Describing == pos >= 0 /\ last \in {"", "OK"} /\ last' = "" /\ Describe /\ UNCHANGED <<kinds, got>> /\ Do([op |-> "describe"])
Next == /\ Len(hist) < MaxOps
        /\ IF Drain THEN \/ last \notin {"SYNC", "EOF", "maybe"} /\ Reading("c")
                         \/ last = "SYNC" /\ fmt \in {"drx", "drx8"} /\ Reading("c")
                         \/ Skipping
           ELSE \E v \in {"c", "i"} : Reading(v) \/ Skipping \/ Seeking \/ Describing
Spec == Init /\ [][Next]_allvars

(* the position is always known to be where a frame starts, or the user has to seek *)
Aligned == pos = -1 \/ IsBoundary(pos)
(* the loop that reads, and skips a frame when told that none starts here, delivers every good frame
   once, in order, and nothing else, and it ends *)
DrainComplete == (Drain /\ last = "EOF") =>
    got = SelectSeq([i \in 1..Len(kinds) |-> i], LAMBDA i : kinds[i] = "good")
InOrder == Drain => \A i, j \in 1..Len(got) : i < j => got[i] < got[j]
Ends == Drain => Len(hist) < MaxOps
View == <<fmt, kinds, pos, last, got, Len(hist)>>
EmitDone == Len(hist) = MaxOps => CSVWrite("%1$s", <<ToJson([fmt |-> fmt, kinds |-> kinds, ops |-> hist])>>, IOEnv.GEN_OUT)
=============================================================================
