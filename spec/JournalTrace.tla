---------------------------- MODULE JournalTrace ----------------------------
EXTENDS Journal, Json, IOUtils, CSV, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
E == Trace[l]
Fail(b, c) == IF b THEN {} ELSE {c}
(* E.got: what every place holds, <<level, number>> of each message; a number of -1 is a message that is not as it was said *)
Raises == IF E.o.op = "file" /\ E.o.bad = "path" THEN {"FileNotFoundError"} ELSE IF (E.o.op = "file" /\ E.o.bad = "level") \/ (E.o.op = "console" /\ E.o.bad) THEN {"ValueError"} ELSE {""}
Plain == LET t == Step(s, E.o, E.id) IN
    Fail(E.exc \in Raises, E.o.op \o "-raises-" \o E.exc) \cup Fail(E.level = t.level, "level") \cup {x \o "-after-" \o E.o.op : x \in {y \in Sinks : E.got[y] # t.sinks[y]}}
(* of several threads: each message once, those of a thread in order *)
Fresh(x) == SubSeq(E.got[x], Len(s.sinks[x]) + 1, Len(E.got[x]))
Told(i, j) == E.id*1000 + i*100 + j
BurstOk(x) == LET k == IF Through(s, "lsl_logger", E.o.level) THEN Times(s, x, E.o.level) ELSE 0 IN
    /\ Len(E.got[x]) = Len(s.sinks[x]) + k*E.o.threads*E.o.n /\ SubSeq(E.got[x], 1, Len(s.sinks[x])) = s.sinks[x]
    /\ k > 0 => \A i \in 1..E.o.threads : LET mine == SelectSeq(Fresh(x), LAMBDA m : m[2] \in {Told(i, j) : j \in 1..E.o.n}) IN
                   /\ Len(mine) = k*E.o.n /\ \A j \in 1..Len(mine) : mine[j] = <<E.o.level, Told(i, ((j - 1) \div k) + 1)>>
Several == Fail(E.exc = "", "burst-raises-" \o E.exc) \cup {x \o "-after-burst" : x \in {y \in Sinks : ~BurstOk(y)}}
Clauses == CASE E.op = "do" /\ E.o.op = "burst" -> Several [] E.op = "do" -> Plain [] OTHER -> {}
Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)
Init == l = 1 /\ s = New
Adopt(t) == [t EXCEPT !.sinks = [x \in Sinks |-> E.got[x]]]
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(Clauses)
        /\ s' = CASE E.op = "begin" -> New [] E.op = "do" -> Adopt(Step(s, E.o, E.id)) [] OTHER -> s
Spec == Init /\ [][Next]_<<l, s>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
