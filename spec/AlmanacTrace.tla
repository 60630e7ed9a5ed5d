---------------------------- MODULE AlmanacTrace ---------------------------
EXTENDS Almanac, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, form, slack, l, dead
vars == <<t, form, slack>>
allvars == <<vars, l, dead>>
E == Trace[l]
T3(x) == <<x[1], x[2], x[3]>>
(* the clock reading that a value writes down *)
Read(f, v) == CASE f \in DayForms \cup {"unix"} -> T3(v)
                [] f = "date" -> Named(v[1], v[2], v[3], v[4], v[5], v[6], v[7], 0)
                [] f \in {"zone", "dt"} -> Named(v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8])
                [] f = "mjdmpm" -> I3(v[1], v[2] \div 1000, 1000*(v[2] % 1000))
Proper(f, v) == CASE f \in {"date", "zone", "dt"} -> v[2] \in 1..12 /\ v[3] \in 1..MonthLen(v[1], v[2]) /\ v[4] \in 0..23 /\ v[5] \in 0..59 /\ v[6] \in 0..59
                  [] f = "mjdmpm" -> v[2] \in 0..86399999
                  [] OTHER -> TRUE
Exact(f, u) == Scale(f) = "utc" /\ u[3] = 0 /\ u[2] \in {0, 43200}
Slack0(f, u) == IF Exact(f, u) THEN 0 ELSE Grain(f)
NewClauses == {c \in {"not-the-instant", "not-proper"} :
    CASE c = "not-proper" -> ~Proper(E.f, E.v)
      [] c = "not-the-instant" -> Proper(E.f, E.v) /\ Apart(Read(E.f, E.v), Reading(E.f, T3(E.t))) > Slack0(E.f, T3(E.t))}
Slack2 == slack + Cost(E.c, t)
ConvClauses == LET f == Reaches(E.c) u == Held(E.c, t) IN
    IF E.exc # "" THEN {"raises-" \o E.exc}
    ELSE IF ~Proper(f, E.v) THEN {"not-proper"}
    ELSE {c \in {"not-the-instant", "zone"} :
        CASE c = "not-the-instant" -> Apart(Read(f, E.v), Reading(f, u)) > Slack2
          [] c = "zone" -> f \in {"zone", "dt"} /\ E.v[8] # E.off}
(* the UTC days that an instant known to within the slack may be on *)
MayBe == LET w == IF slack <= 4 /\ Exact(form, t) THEN 0 ELSE slack + 50 IN {Shift(t, 0, -w)[1], t[1], Shift(t, 0, w)[1]}
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
AskClauses ==
    IF E.exc # "" THEN {"raises-" \o E.exc}
    ELSE CASE E.q = "week" -> {c \in {"day-of-week"} : E.v \notin {WeekDay(d) : d \in MayBe}}
           [] E.q = "leap" -> {c \in {"leap-seconds"} : E.v \notin {1000*Leaps(d) : d \in MayBe}}
           [] E.q = "cmp" -> IF slack > 100000 \/ (E.d = 0 /\ (slack > 2 \/ t[3] # 0)) THEN {}
                             ELSE {c \in {"order"} : E.r # [lt |-> E.d > 0, eq |-> E.d = 0, gt |-> E.d < 0, le |-> E.d >= 0, ge |-> E.d <= 0, ne |-> E.d # 0]}
           [] OTHER -> {}
Clauses == CASE E.op = "new" -> NewClauses
             [] E.op = "conv" -> ConvClauses
             [] E.op = "ask" -> AskClauses
Move == CASE E.op = "new" -> t' = T3(E.t) /\ form' = E.f /\ slack' = Slack0(E.f, T3(E.t))
          [] E.op = "conv" -> t' = Held(E.c, t) /\ form' = Reaches(E.c) /\ slack' = Slack2
          [] OTHER -> UNCHANGED vars
Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)
Init == t = <<0, 0, 0>> /\ form = "none" /\ slack = 0 /\ l = 1 /\ dead = FALSE
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF E.op = "begin" THEN dead' = FALSE /\ UNCHANGED vars
       ELSE IF dead /\ E.op # "new" THEN UNCHANGED <<vars, dead>>
       ELSE LET cs == Clauses IN
            IF cs = {} THEN Move /\ dead' = FALSE
            ELSE Report(cs) /\ dead' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][Next]_allvars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
