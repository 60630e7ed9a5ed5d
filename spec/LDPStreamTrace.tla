--------------------------- MODULE LDPStreamTrace --------------------------
EXTENDS LDPStream, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, dead, cfg
allvars == <<vars, l, dead, cfg>>
E == Trace[l]

ReadClauses ==
    LET n == IF E.n = 0 THEN N + 1 ELSE E.n
        left == Left(next)
    IN CASE left = 0 -> {c \in {"read-past-the-end-is-not-EOFError"} : E.exc # "EOFError"}
         [] left > 0 /\ Blocked(next, n) ->
              (* a partial read up to the gap is as good as the error *)
              IF E.exc = "RuntimeError" THEN {}
              ELSE IF E.exc # "" THEN {"read-over-a-gap-raises-" \o E.exc}
              ELSE IF E.k < 1 \/ Blocked(next, E.k) THEN {"gap-not-noticed"}
              ELSE IF E.t # next \/ \E s \in 1..ns : E.data[s] # Data(next, E.k, s) THEN {"read-data"} ELSE {}
         [] OTHER ->
              IF E.exc # "" THEN {"read-raises-" \o E.exc}
              ELSE {c \in {"read-count", "read-start-time", "read-data", "read-other-inputs", "read-after-the-end-of-the-data"} :
                  CASE c = "read-count" -> IF cfg.exact THEN E.k # Min(n, left) ELSE ~(E.k >= 1 /\ E.k <= Min(n, left))
                    [] c = "read-start-time" -> E.t # Nth(next, 0)
                    [] c = "read-data" -> E.k >= 1 /\ E.k <= left /\ \E s \in 1..ns : E.data[s] # Data(next, E.k, s)
                    [] c = "read-other-inputs" -> E.extra
                    [] c = "read-after-the-end-of-the-data" -> E.tail}

OffsetClauses ==
    LET dest == next + E.x \div 1000 IN
    IF dest < 1 \/ dest + cfg.offmargin > N THEN {}      \* outside the recording or too near to its end: free
    ELSE IF E.exc # "" THEN {"offset-raises-" \o E.exc}
    ELSE {c \in {"offset-value", "offset-not-whole-slots"} :
            CASE c = "offset-value" -> E.ret - E.x > 2000 \/ E.x - E.ret > 2000
              [] c = "offset-not-whole-slots" -> (E.ret + 2) % 1000 > 4}

Clauses ==
    CASE E.op = "open" ->
            IF E.exc # "" THEN {"open-raises-" \o E.exc}
            ELSE {c \in {"open-start-time", "open-frame-count"} :
                    CASE c = "open-start-time" -> cfg.inorder /\ E.start # First
                      [] c = "open-frame-count" -> E.nframe # 0}
      [] E.op = "read" -> ReadClauses
      [] E.op = "reset" -> {c \in {"reset-raises"} : E.exc # ""}
      [] E.op = "offset" -> OffsetClauses
Free == E.op = "offset" /\ LET dest == next + E.x \div 1000 IN
           (dest < 1 \/ dest + cfg.offmargin > N)
Move ==
    CASE E.op = "read" -> IF E.exc = "" THEN Read(E.k) ELSE IF E.exc = "EOFError" THEN UNCHANGED vars ELSE Fail
      [] E.op = "reset" -> Reset
      [] E.op = "offset" -> IF Free \/ E.exc # "" THEN Fail ELSE Offset((E.ret + 2) \div 1000)
      [] OTHER -> UNCHANGED vars
Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)
Init == InitWith(<< >>, 0, 1, FALSE) /\ l = 1 /\ dead = FALSE /\ cfg = [exact |-> TRUE]
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF E.op = "begin"
       THEN /\ slots' = E.slots /\ ns' = E.ns /\ fill' = E.fill /\ ignore' = E.ignore /\ next' = 1 /\ ok' = TRUE
            /\ dead' = FALSE
            /\ cfg' = [exact |-> E.exact, inorder |-> E.inorder, offmargin |-> E.offmargin]
       ELSE /\ UNCHANGED cfg
            /\ IF dead \/ (~ok /\ E.op # "reset") THEN UNCHANGED <<vars, dead>>
               ELSE LET cs == Clauses IN
                    IF cs = {} THEN Move /\ UNCHANGED dead
                    ELSE Report(cs) /\ dead' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][Next]_allvars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
