--------------------------- MODULE SplitFileTrace --------------------------
EXTENDS SplitFile, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, dead
allvars == <<vars, l, dead>>
E == Trace[l]

Clauses ==
    CASE E.op = "read" ->
            IF closed THEN {c \in {"read-on-closed-file"} : E.exc = ""}
            ELSE IF E.exc # "" THEN {"read-raises"}
            ELSE {c \in {"read-length", "read-bytes"} :
                    CASE c = "read-length" -> Len(E.data) # Len(ReadResult(pos, E.n))
                      [] c = "read-bytes" -> E.data # ReadResult(pos, E.n)}
      [] E.op = "seek" ->
            IF closed THEN {c \in {"seek-on-closed-file"} : E.exc = ""}
            ELSE IF Target(E.o, E.w) < 0 THEN {c \in {"seek-before-start-accepted"} : E.exc = ""}
            ELSE {c \in {"seek-raises"} : E.exc # ""}
      [] E.op = "tell" ->
            IF closed THEN {c \in {"tell-on-closed-file"} : E.exc = ""}
            ELSE IF E.exc # "" THEN {"tell-raises"} ELSE {c \in {"tell"} : E.pos # pos}
      [] E.op = "size" -> {c \in {"size"} : E.size # Total}
      [] OTHER -> {c \in {"raises"} : E.exc # ""}
Move ==
    CASE E.op = "read" /\ ~closed -> Read(E.n)
      [] E.op = "seek" /\ ~closed -> Seek(E.o, E.w)
      [] E.op = "enter" -> Enter
      [] E.op = "leave" -> Leave
      [] E.op = "close" -> Close
      [] OTHER -> UNCHANGED vars
Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)
Init == InitWith(<< << >> >>) /\ l = 1 /\ dead = FALSE
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF E.op = "begin"
       THEN parts' = E.parts /\ pos' = 0 /\ closed' = FALSE /\ saved' = << >> /\ dead' = FALSE
       ELSE IF dead THEN UNCHANGED <<vars, dead>>
       ELSE LET cs == Clauses IN
            IF cs = {} THEN Move /\ UNCHANGED dead
            ELSE Report(cs) /\ dead' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][Next]_allvars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
