----------------------------- MODULE CacheTrace -----------------------------
EXTENDS Cache, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, dead
allvars == <<vars, l, dead>>
E == Trace[l]
SeqSet(s) == {s[i] : i \in 1..Len(s)}
(* what is seen of every file: "there" from 'in', size from getsize and stat, the blocks read in several ways *)
After(h, b, o) ==
    {c \in {"names-wrong", "size-wrong", "content-wrong", "text-differs", "lines-differ", "mtime-wrong", "missing-not-error"} :
       CASE c = "names-wrong" -> SeqSet(E.names) # h
         [] c = "size-wrong" -> \E n \in h : n \in SeqSet(E.names) /\ (E.sizes[n] # Total(b[n]) \/ E.stats[n] # Total(b[n]))
         [] c = "content-wrong" -> \E n \in h : n \in SeqSet(E.names) /\ E.blocks[n] # b[n]
         [] c = "text-differs" -> \E n \in h : n \in SeqSet(E.names) /\ ~E.text[n]
         [] c = "lines-differ" -> \E n \in h : n \in SeqSet(E.names) /\ ~E.lines[n]
         [] c = "mtime-wrong" -> \E n \in h : n \in SeqSet(E.names) /\ ~E.mtimes[n]
         [] c = "missing-not-error" -> \E n \in DOMAIN b : n \notin h /\ E.absent[n] # "OSError OSError OSError OSError"}
Clauses ==
    CASE E.op = "write" ->
            IF E.exc # (IF E.fail THEN "Planned" ELSE "") THEN {"write-raises-" \o E.exc}
            ELSE {c \in {"evicts-wrongly", "handle-closed", "block-not-locked"} :
                    CASE c = "evicts-wrongly" -> SeqSet(E.inside) # During(E.n, E.mode)
                      [] c = "handle-closed" -> ~E.handle
                      [] c = "block-not-locked" -> ~E.locked}
      [] E.op = "see" -> After(has, body, ord)
      [] E.op = "remove" -> {c \in {"remove-raises"} : E.exc # ""}
      [] E.op = "unlocked" -> {c \in {"lock-left-behind"} : ~E.ok}
      [] E.op = "count" -> {c \in {"update-lost"} : E.got # E.want}
      [] E.op = "nested" -> {c \in {"nested-read-wrong"} : E.n \in has /\ E.blocks # body[E.n]}
      [] OTHER -> {}
Move == CASE E.op = "write" -> Write(E.n, E.mode, E.put)
          [] E.op = "remove" -> Remove(E.n)
          [] E.op = "reopen" -> Reopen(E.k)
          [] OTHER -> UNCHANGED vars
Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)
Init == /\ has = {} /\ body = << >> /\ ord = << >> /\ clock = 0 /\ limit = 0 /\ l = 1 /\ dead = FALSE
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF E.op = "begin" THEN /\ has' = {} /\ body' = [n \in 1..E.names |-> << >>] /\ ord' = [n \in 1..E.names |-> 0]
                              /\ clock' = 0 /\ limit' = E.limit /\ dead' = FALSE
       ELSE IF dead THEN UNCHANGED <<vars, dead>>
       ELSE LET cs == Clauses IN
            IF cs = {} THEN Move /\ UNCHANGED dead
            ELSE Report(cs) /\ dead' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][Next]_allvars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
