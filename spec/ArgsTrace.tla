----------------------------- MODULE ArgsTrace -----------------------------
EXTENDS Args, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
E == Trace[l]
P == E.p
Refused == E.exc = "ArgumentTypeError"
(* of a value that is bad: refused, and in the way that the command line understands; of one that is good: what it means *)
Judge(good, right) == IF good THEN IF E.exc # "" THEN {"refused-" \o E.exc} ELSE IF right THEN {} ELSE {"value"} ELSE IF Refused THEN {} ELSE {"accepted-or-wrong-error"}
One(r, kind) == LET w == WordOf(E.text) x == ListOf(E.text, kind) IN
    IF w # "" THEN IF r.exc = "" /\ r.word = w THEN {} ELSE {kind \o "-word"}
    ELSE IF x.ok THEN IF r.exc # "" THEN {kind \o "-refused"} ELSE IF r.word = "" /\ r.v = x.v THEN {} ELSE {kind \o "-value"}
    ELSE IF r.exc = "ArgumentTypeError" THEN {} ELSE {kind \o "-accepted-or-wrong-error"}
TextClauses == One(E.ints, "ints") \cup One(E.bls, "bls")
(* numbers: E.got in thousandths *)
Whole2(f) == f \in {"positive_int", "positive_or_zero_int"}
NumGood == /\ P.form \in (IF Whole2(P.fn) THEN {"plain", "blank", "zeros"} ELSE {"plain", "blank", "zeros", "exp", "half"})
           /\ (IF P.fn \in {"positive_int", "positive_float"} THEN P.n > 0 \/ (P.n = 0 /\ P.form = "half" /\ ~Whole2(P.fn)) ELSE P.n >= 0)
NumRight == E.got = P.n*1000 + (IF P.form = "half" THEN IF P.n < 0 THEN -500 ELSE 500 ELSE 0)
(* frequencies: P.a and P.b are in kHz if the unit is one of frequency, in mm if one of length; E.got in kHz or mm *)
Lengths == {"mm", "cm", "m"}
InLength(u, fn) == IF u = "" THEN fn = "wavelength" ELSE u \in Lengths
Value(x, u, fn) == IF InLength(u, fn) = (fn = "wavelength") THEN x ELSE Other(x)
FreqForm == IF ~P.range THEN P.form # "word" ELSE P.form # "word" /\ (P.form = "first" => P.unit = "")
FreqGood == FreqForm /\ P.range = P.asked
FreqUnit == IF P.range /\ P.form = "none" THEN "" ELSE P.unit
FreqRight == LET u == P.unit IN
    IF ~P.range THEN Len(E.got) = 1 /\ Near(E.got[1], Value(P.a, u, P.fn))
    ELSE LET w == Ordered(Value(P.a, u, P.fn), Value(P.b, u, P.fn)) IN Len(E.got) = 2 /\ Near(E.got[1], w[1]) /\ Near(E.got[2], w[2])
(* days *)
DayGood == P.form \in {"-", "/", "mjd"} /\ GoodDate(P.y, P.m, P.d)
DayRight == IF P.fn = "mjd" THEN E.got = <<Days(P.y, P.m, P.d)>> ELSE E.got = <<P.y, P.m, P.d>>
(* times; a number of milliseconds goes to the end of a leap second *)
ClockGood == P.form \in {"mpm", "hms", "hms.f"} /\ GoodClock(P.h, P.m, P.s)
ClockMs == (P.h*3600 + P.m*60 + P.s)*1000 + (IF P.form = "hms" THEN 0 ELSE P.ms)
ClockRight == IF P.fn = "mpm" THEN E.got = <<ClockMs>> ELSE E.got = ClockOf(ClockMs, IF P.form = "hms.f" THEN P.us ELSE 0)
(* angles: arc seconds, or seconds of time *)
AngleOf(a) == LET v == a.deg*3600 + (IF P.form = "d" THEN 0 ELSE a.min*60) + (IF P.form = "dms" THEN a.sec ELSE 0) IN IF a.neg THEN -v ELSE v
AngleGood == ~P.bad /\ Len(P.list) > 0
AngleRight == Len(E.got) = Len(P.list) /\ \A i \in 1..Len(P.list) : E.got[i] = AngleOf(P.list[i])
(* computers: E.got [base, numbers] *)
HostOf(h) == IF h.ip THEN LET c == Cross(h.r) IN [i \in 1..Len(c) |-> [base |-> "", n |-> c[i]]]
             ELSE IF h.kind = "bare" THEN <<[base |-> h.base, n |-> << >>]>>
             ELSE IF h.kind = "one" THEN <<[base |-> h.base, n |-> <<h.r[1][1]>>]>>
             ELSE LET s == Span(h.r[1]) IN [i \in 1..Len(s) |-> [base |-> h.base, n |-> <<s[i]>>]]
RECURSIVE Hosts(_)
Hosts(hs) == IF hs = << >> THEN << >> ELSE HostOf(hs[1]) \o Hosts(SubSeq(hs, 2, Len(hs)))
HostGood == P.bad = ""
HostRight == E.got = Hosts(P.items)
Clauses == CASE E.op = "text" -> TextClauses
             [] E.op = "num" -> Judge(NumGood, NumRight)
             [] E.op = "freq" -> Judge(FreqGood, FreqRight)
             [] E.op = "day" -> Judge(DayGood, DayRight)
             [] E.op = "clock" -> Judge(ClockGood, ClockRight)
             [] E.op = "angle" -> Judge(AngleGood, AngleRight)
             [] E.op = "host" -> Judge(HostGood, HostRight)
             [] OTHER -> {}
Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(Clauses)
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
