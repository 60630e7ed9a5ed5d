------------------------------ MODULE SumsTrace ------------------------------
EXTENDS Sums, Json, IOUtils, CSV, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, h
E == Trace[l]
Fail(b, c) == IF b THEN {} ELSE {c}
Now == IF E.op = "begin" THEN << >> ELSE Step(h, E.o)
Held == {"frame-" \o E.o.op : k \in {j \in 1..Len(Now) : E.all[j] # Now[j]}}
DoClauses == IF Refused(h, E.o) THEN Fail(E.exc # "", "not-refused") \cup Fail(Len(E.all) = Len(h), "made") \cup {"changed-though-refused" : k \in {j \in 1..Len(h) : E.all[j] # h[j]}}
             ELSE IF E.exc # "" THEN {"raises-" \o E.exc} ELSE Fail(E.same = E.o.inplace, "identity") \cup Fail(Len(E.all) = Len(Now), "made") \cup (IF Len(E.all) = Len(Now) THEN Held ELSE {})
(* an odd time is one sample after the second; a plain number of seconds cannot tell the two apart *)
CmpClauses == IF E.exc # "" THEN {"compare-raises-" \o E.exc} ELSE Fail(E.r = Order(IF E.o.with \in {"int", "float"} THEN 2*(h[E.o.i].t \div 2) ELSE h[E.o.i].t, IF E.o.with = "frame" THEN h[E.o.j].t ELSE E.o.t), "order")
SortClauses == Fail(Len(E.r) = Len(h) /\ {E.r[k] : k \in 1..Len(E.r)} = 1..Len(h) /\ \A k \in 1..(Len(h)-1) : h[E.r[k]].t < h[E.r[k+1]].t \/ (h[E.r[k]].t = h[E.r[k+1]].t /\ E.r[k] < E.r[k+1]), "sorted")
Clauses == CASE E.op = "do" /\ E.o.op = "do" -> DoClauses [] E.op = "do" /\ E.o.op = "cmp" -> CmpClauses [] E.op = "do" /\ E.o.op = "sort" -> SortClauses [] E.op = "do" -> Held [] OTHER -> {}
Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)
Init == l = 1 /\ h = << >>
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(Clauses) /\ h' = Now
Spec == Init /\ [][Next]_<<l, h>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
