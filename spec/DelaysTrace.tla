---------------------------- MODULE DelaysTrace ----------------------------
EXTENDS Delays, Json, IOUtils, CSV, TLC, Functions
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
E == Trace[l]
P == E.p
Fail(b, c) == IF b THEN {} ELSE {c}
Exc(c) == IF E.exc # "" THEN {c \o "-raises-" \o E.exc} ELSE {}
(* E.got[x][c]: the number of the sample that is there, 0 the filling, -1 anything else *)
IncClauses == IF Tie(P.d, P.ms, P.t) THEN {} ELSE Exc("incoherent") \cup IF E.exc # "" THEN {} ELSE
    Fail(E.kept, "incoherent-changes-input")
    \cup Fail(Len(E.got) = P.n /\ \A x \in 1..P.n : \A c \in 1..Len(P.ms) : E.got[x][c] = Moved(x, P.n, Bins(P.d, P.ms, c, P.t), P.wrap), "incoherent-sample")
LagClauses == Exc("delay") \cup IF E.exc # "" THEN {} ELSE Fail(Len(E.got) = Len(P.ms) /\ \A c \in 1..Len(P.ms) : Abs(E.got[c] - LagUs(P.d, P.ms, c)) <= 1, "delay")
(* E.n: the size of a window, E.need: what the delay takes of samples, rounded up; E.len: the length of the block; E.data, E.time: what each half window holds *)
CohClauses == Fail(E.n = 2*Pow2(E.need, 1), "window-size") \cup Fail(E.kept, "coherent-changes-input") \cup
    (IF E.len < E.n THEN Fail(E.exc = "RuntimeWarning", "too-few")
     ELSE IF P.prev = "short" \/ P.next = "short" THEN Fail(E.exc = "RuntimeError", "too-few-around")
     ELSE Exc("coherent") \cup IF E.exc # "" THEN {} ELSE
        LET want == [h \in 1..Halves(E.len, E.n) |-> HalfOf(h - 1, E.len, E.n, P.prev = "ok", P.next = "ok")] IN
        Fail(E.size = <<E.len, E.len>>, "coherent-size")
        \cup Fail(Len(E.data) = Len(want) /\ \A h \in 1..Len(want) : want[h] \in Range(E.data[h]), "coherent-data")
        \cup Fail(Len(E.time) = Len(want) /\ \A h \in 1..Len(want) : E.time[h] = (IF want[h] = "zero" THEN "zero" ELSE "whole"), "coherent-time"))
Z(re, im) == <<re, im>>
BeamClauses == Exc("beam") \cup IF E.exc # "" THEN {} ELSE LET as == P.ants ps == Pols(as) nc == IF P.nch = 0 THEN 1 ELSE P.nch IN
    Fail(E.kept, "beam-changes-input")
    \cup Fail(Len(E.lags) = Len(as) /\ \A a \in 1..Len(as) : \A c \in 1..nc : E.lags[a][c] = Late(as, a, P.dir), "beam-delay")
    \cup Fail(E.shape = <<Len(ps)>> \o (IF P.nch = 0 THEN << >> ELSE <<nc>>) \o <<P.nt*P.rep>>, "beam-shape")
    \cup Fail(E.again, "beam-repeats")
    \cup Fail(Len(E.got) = Len(ps) /\ \A q \in 1..Len(ps) : \A c \in 1..nc : \A t \in 1..P.nt :
               E.got[q][c][t] = BeamOf(as, P.dir, c, [a \in 1..Len(as) |-> Z(P.re[a][c][t], IF E.real THEN 0 ELSE P.im[a][c][t])], ps[q]), "beam-sum")
BadClauses == IF P.alt \in 0..90 /\ P.az \in 0..360 THEN Fail(E.exc = "", "pointing-refused-" \o E.exc) ELSE Fail(E.exc = "ValueError", "pointing-accepted")
CircClauses == Exc("circularize") \cup IF E.exc # "" THEN {} ELSE Fail(E.l = Left(P.x, P.y, P.iau) /\ E.r = Right(P.x, P.y, P.iau), "circular")
Clauses == CASE E.op = "inc" -> IncClauses [] E.op = "lag" -> LagClauses [] E.op = "coh" -> CohClauses [] E.op = "beam" -> BeamClauses [] E.op = "bad" -> BadClauses [] E.op = "circ" -> CircClauses [] OTHER -> {}
Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(Clauses)
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
