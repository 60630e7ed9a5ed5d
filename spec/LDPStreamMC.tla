---------------------------- MODULE LDPStreamMC ----------------------------
EXTENDS LDPStream, TLC, Json, IOUtils, CSV, Randomization
CONSTANTS NSlots, Stands, Fills, MaxOps, Emit
VARIABLES hist, got, shape
allvars == <<vars, hist, got, shape>>

(* a recording: frames numbered in order, one gap, one lost frame *)
Serial(n, i, s) == (i - 1) * n + s
File(n, gap, lost) == [i \in 1..NSlots |-> [s \in 1..n |->
      IF (i > gap[1] /\ i <= gap[1] + gap[2]) \/ <<i, s>> \in lost THEN 0 ELSE Serial(n, i, s)]]
Shapes == [ns : Stands, gap : {<<0, 0>>} \cup {<<a, b>> \in (1..NSlots-2) \X (1..3) : a + b < NSlots},
           lost : {{}} \cup {{<<i, s>>} : i \in {1, NSlots \div 2, NSlots}, s \in 1..2}, fill : Fills, ignore : BOOLEAN,
           ring : {2, 3, 5}, jit : BOOLEAN, tail : {0, 7}, fmt : {"drx", "drx8", "tbx", "drspec"}]
Init == /\ \E sh \in (IF Emit THEN RandomSubset(400, Shapes) ELSE Shapes) : /\ (~Emit => sh.fmt = "drx" /\ sh.ring = 3 /\ ~sh.jit /\ sh.tail = 0)
                              /\ \A i \in {1, NSlots} : \E s \in 1..sh.ns : File(sh.ns, sh.gap, sh.lost)[i][s] # 0
                              /\ shape = sh
                              /\ InitWith(File(sh.ns, sh.gap, sh.lost), sh.ns, sh.fill, sh.ignore)
        /\ hist = << >> /\ got = << >>
Do(ev) == hist' = Append(hist, IF Emit THEN ev ELSE 0)
DoRead(n) == /\ Left(next) > 0 /\ ~Blocked(next, n)
             /\ Read(Min(n, Left(next)))
             /\ got' = got \o Slots(next, Min(n, Left(next)))
DoFail(n) == Blocked(next, n) /\ Fail /\ UNCHANGED got
DoEOF == Left(next) = 0 /\ UNCHANGED <<vars, got>>
Next == /\ Len(hist) < MaxOps /\ UNCHANGED shape
        /\ \/ \E n \in {1, 2, 3, 5, 40} : ok /\ (DoRead(n) \/ DoFail(n) \/ DoEOF) /\ Do([op |-> "read", n |-> n])
           \/ hist # << >> /\ Reset /\ got' = << >> /\ Do([op |-> "reset"])
           \/ /\ shape.gap[2] = 0 /\ shape.lost = {}
              /\ \E d \in {-2, 0, 1, 3} : ok /\ next + d \in 1..NSlots /\ Offset(d) /\ got' = << >> /\ Do([op |-> "offset", x |-> 1000*d + 300])
Spec == Init /\ [][Next]_allvars
View == <<vars, got, Len(hist), shape>>
(* what was handed out since the start is the recording up to here, whatever the sizes of the reads *)
Tiles == \/ got = << >>
         \/ got = Slots(got[1], Len(got)) /\ next = got[Len(got)] + 1
NoRepeat == \A i, j \in 1..Len(got) : i < j => got[i] < got[j]
NothingLost == ok /\ got # << >> /\ Left(next) = 0 =>
                 {got[i] : i \in 1..Len(got)} = {i \in got[1]..N : Keep(i)}
(* every frame of the file that is not in a gap too large to fill is in some slot that is kept *)
KeepsFrames == \A i \in 1..N : ~Empty(i) => Keep(i)
EmitDone == Len(hist) = MaxOps =>
   CSVWrite("%1$s", <<ToJson([ns |-> shape.ns, gap |-> shape.gap, lost |-> shape.lost, fill |-> shape.fill, ring |-> shape.ring,
                              jit |-> shape.jit, tail |-> shape.tail, fmt |-> shape.fmt, ignore |-> shape.ignore,
                              ops |-> hist])>>, IOEnv.GEN_OUT)
=============================================================================
