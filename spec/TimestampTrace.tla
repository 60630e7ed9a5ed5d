--------------------------- MODULE TimestampTrace --------------------------
EXTENDS Timestamp, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, dead
allvars == <<vars, l, dead>>
E == Trace[l]

Triple(x) == <<x[1], x[2], x[3]>>
(* two instants (triples) no further apart than n ticks *)
Near(a, b, n) == LET m == Minus(a, b) IN \/ (m[1] = 0 /\ m[2] = 0 /\ m[3] <= n)
                                         \/ (m[1] = -1 /\ m[2] = DAY - 1 /\ m[3] >= FS - n)
(* what a time stamp reads as *)
ReadClauses(t) ==
    {c \in {"dp-timetag", "pulsar-mjd-value", "pulsar-mjd-range", "unix", "mjd", "jd", "datetime", "astropy", "format"} :
        CASE c = "dp-timetag" -> IF E.op = "set" THEN Triple(E.tag) # t ELSE ~Near(Triple(E.tag), t, 1)   \* the sum of doubles
          [] c = "pulsar-mjd-value" -> ~Near(Triple(E.pulsar), t, 2)
          [] c = "pulsar-mjd-range" -> ~E.prange
          [] c = "unix" -> ~Near(Triple(E.unix), t, 100)       \* a double of seconds since 1970: 0.24 us
          [] c = "mjd" -> ~Near(Triple(E.mjd), t, 400)         \* a double of days: 0.6 us
          [] c = "jd" -> ~Near(Triple(E.jd), t, 10000)         \* a double of days since -4712: 40 us
          [] c = "datetime" -> ~Near(Triple(E.dt), t, 200)     \* microseconds
          [] c = "astropy" -> ~Near(Triple(E.ap), t, 1)
          [] c = "format" -> ~E.fmtok}
Target == CASE E.op = "set" -> Norm(E.d, E.s, E.k)
            [] E.op = "shift" -> Plus(now, E.s, E.k)
            [] OTHER -> now
CmpClauses ==
    {c \in {"order", "equal", "difference"} :
        CASE c = "order" -> now # ref /\ (E.lt # Before(now, ref) \/ E.gt # Before(ref, now)
                                          \/ E.le # Before(now, ref) \/ E.ge # Before(ref, now))
          [] c = "equal" -> (now # ref /\ (E.eq \/ ~E.ne)) \/ (E.same /\ (~E.eq \/ E.ne \/ E.lt \/ E.gt))
          [] c = "difference" -> ~Near(Triple(E.diff), Minus(now, ref), IF Minus(now, ref)[1] \in -30..30 THEN 2 ELSE 100)}
Clauses ==
    IF E.exc # "" THEN {"raises-" \o E.exc}
    ELSE CASE E.op \in {"set", "shift"} -> ReadClauses(Target) \cup {c \in {"operand-changed"} : E.touched}
           [] E.op = "cmp" -> CmpClauses
           [] OTHER -> {}
Move == CASE E.op = "set" -> Set(E.d, E.s, E.k)
          [] E.op = "shift" -> Shift(E.s, E.k)
          [] E.op = "mark" -> Mark
          [] OTHER -> UNCHANGED vars
Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)
Init == now = <<0, 0, 0>> /\ ref = <<0, 0, 0>> /\ l = 1 /\ dead = FALSE
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF E.op = "begin" THEN now' = <<0, 0, 0>> /\ ref' = <<0, 0, 0>> /\ dead' = FALSE
       ELSE IF dead THEN UNCHANGED <<vars, dead>>
       ELSE LET cs == Clauses IN
            IF cs = {} THEN Move /\ UNCHANGED dead
            ELSE Report(cs) /\ dead' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][Next]_allvars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
