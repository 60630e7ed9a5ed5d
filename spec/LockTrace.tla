------------------------------ MODULE LockTrace -----------------------------
EXTENDS Lock, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, dead
allvars == <<vars, l, dead>>
E == Trace[l]
Clauses ==
    CASE E.op = "try" ->
            IF E.exc # "" THEN {"acquire-raises-" \o E.exc}
            ELSE {c \in {"two-holders", "free-lock-not-given"} :
                    CASE c = "two-holders" -> E.got /\ ~Free(E.a)
                      [] c = "free-lock-not-given" -> ~E.got /\ Free(E.a)}
      (* a blocking acquire that returned, seen in the order of a shared log *)
      [] E.op = "acq" ->
            IF E.exc # "" THEN {"acquire-raises-" \o E.exc}
            ELSE {c \in {"two-holders", "acquire-gave-up"} :
                    CASE c = "two-holders" -> E.got /\ ~Free(E.a)
                      [] c = "acquire-gave-up" -> ~E.got}
      [] E.op = "release" -> {c \in {"release-raises"} : E.exc # "" /\ depth[E.a] > 0}
      [] E.op = "locked" -> {c \in {"locked-is-wrong"} : E.val # (depth[E.a] > 0)}
      [] OTHER -> {}
Move == CASE E.op = "try" -> Try(E.a)
          [] E.op = "acq" -> Acquire(E.a)
          [] E.op = "release" -> Release(E.a)
          [] E.op = "crash" -> Crash(2)
          [] OTHER -> UNCHANGED vars
Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)
Init == proc = <<1>> /\ depth = <<0>> /\ l = 1 /\ dead = FALSE
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF E.op = "begin" THEN proc' = E.proc /\ depth' = [a \in 1..Len(E.proc) |-> 0] /\ dead' = FALSE
       ELSE IF dead THEN UNCHANGED <<vars, dead>>
       ELSE LET cs == Clauses IN
            IF cs = {} THEN Move /\ UNCHANGED dead
            ELSE Report(cs) /\ dead' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][Next]_allvars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
