---------------------------- MODULE ConsentTrace ---------------------------
EXTENDS Consent, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cfg, stamp, sess, lo, hi, got, key, l, dead
vars == <<cfg, stamp, sess, lo, hi, got, key>>
allvars == <<vars, l, dead>>
E == Trace[l]
----------------------------------------------------------------------------
(* E.disk, E.got: what the logs hold and what the server has been told, by kind; E.timed: the same, calls with a time *)
S == sess[E.s]
After == CASE E.op \in {"call", "calls"} -> IF E.op = "call" THEN Called(S, E.k, E.n) ELSE [S EXCEPT !.pend = IF S.on THEN [k \in Counted |-> @[k] + (IF k \in {E.ks[i] : i \in 1..Len(E.ks)} THEN E.n ELSE 0)] ELSE @]
           [] E.op = "ignore" -> Ignored(S) [] E.op = "disable" -> Disabled(S) [] E.op = "enable" -> Enabled(S)
           [] OTHER -> S
Fresh3(k) == After.pend[k] - S.pend[k]
(* the most that there may be, and the least, after this event *)
Hi == CASE E.op \in {"call", "calls"} -> [k \in Counted |-> hi[k] + Fresh3(k)]
        [] E.op = "send" /\ E.f = "ackloss" -> [k \in Counted |-> hi[k] + E.got[k] - got[k]]
        [] OTHER -> hi
Lo == IF E.op = "exit" /\ S.on /\ E.end = "exit" THEN Plus(lo, S.pend)
      ELSE IF E.op = "send" /\ E.f = "ackloss" THEN [k \in Counted |-> lo[k] + E.got[k] - got[k]]
      ELSE lo
Amount == {c \in {"lost", "made-up", "timed", "foreign", "key"} :
    CASE c = "lost" -> \E k \in Counted : E.disk[k] + E.got[k] < Lo[k]
      [] c = "made-up" -> \E k \in Counted : E.disk[k] + E.got[k] > Hi[k]
      [] c = "timed" -> \E k \in Counted : E.timed[k] # (IF k \in Timed THEN E.disk[k] + E.got[k] ELSE 0)
      [] c = "foreign" -> E.strange # << >>
      [] c = "key" -> ~E.keys}
Own == CASE E.op = "start" -> {c \in {"setting", "sender", "key"} :
              CASE c = "setting" -> E.active \notin cfg [] c = "sender" -> E.spawned # E.active [] c = "key" -> key # "" /\ E.key # key}
         [] E.op \in {"ignore", "disable", "enable"} -> {c \in {"not-off", "not-on"} : CASE c = "not-off" -> E.op # "enable" /\ E.active [] c = "not-on" -> E.op = "enable" /\ ~E.active}
         [] E.op \in {"call", "calls"} -> {c \in {"result", "turned"} : CASE c = "result" -> ~E.ret [] c = "turned" -> E.active # S.on}
         [] E.op = "send" -> {c \in {"too-early", "not-sent", "sent-twice-at-once"} :
              CASE c = "too-early" -> E.sent /\ ~E.old
                [] c = "not-sent" -> ~E.sent /\ E.old /\ E.f # "locked"
                [] c = "sent-twice-at-once" -> E.sent /\ E.f = "locked"}
         [] E.op = "cli" -> {c \in {"setting", "not-off", "not-on"} :
              CASE c = "setting" -> E.a \in {"", "-k"} /\ E.active \notin cfg [] c = "not-off" -> E.a = "-d" /\ E.active [] c = "not-on" -> E.a = "-e" /\ ~E.active}
         [] OTHER -> {}
Clauses == Own \cup Amount
Put(x) == sess' = [sess EXCEPT ![E.s] = x]
Move ==
    /\ lo' = Lo /\ hi' = Hi /\ got' = E.got
    /\ CASE E.op = "start" -> Put(Opened(E.active, stamp)) /\ cfg' = {E.active} /\ key' = E.key /\ UNCHANGED stamp
         [] E.op \in {"call", "calls", "ignore", "disable", "enable"} -> Put(After) /\ UNCHANGED <<cfg, stamp, key>>
         [] E.op = "exit" -> /\ Put(Closed) /\ UNCHANGED key
                             /\ cfg' = (IF E.end = "exit" THEN Leaves(S, cfg, stamp) ELSE Dies(S, cfg))
                             /\ stamp' = stamp + (IF S.touched THEN 1 ELSE 0)
         [] E.op = "kill" -> Put(Closed) /\ cfg' = Dies(S, cfg) /\ stamp' = stamp + (IF S.touched THEN 1 ELSE 0) /\ UNCHANGED key
         [] E.op = "cli" -> cfg' = (CASE E.a = "-e" -> {TRUE} [] E.a = "-d" -> {FALSE} [] OTHER -> {E.active}) /\ stamp' = stamp + (IF E.a \in {"-e", "-d"} THEN 1 ELSE 0) /\ UNCHANGED <<sess, key>>
         [] OTHER -> UNCHANGED <<cfg, stamp, sess, key>>
Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)
Init == cfg = {TRUE} /\ stamp = 0 /\ sess = [s \in Slots |-> Closed] /\ lo = Zero /\ hi = Zero /\ got = Zero /\ key = "" /\ l = 1 /\ dead = FALSE
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF E.op = "begin" THEN cfg' = {E.cfg} /\ stamp' = 0 /\ sess' = [s \in Slots |-> Closed] /\ lo' = Zero /\ hi' = Zero /\ got' = Zero /\ key' = "" /\ dead' = FALSE
       ELSE IF dead THEN UNCHANGED <<vars, dead>>
       ELSE LET cs == Clauses IN
            IF cs = {} THEN Move /\ dead' = FALSE
            ELSE Report(cs) /\ dead' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][Next]_allvars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
