---------------------------- MODULE ConfigTrace -----------------------------
EXTENDS Config, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, dead
allvars == <<vars, l, dead>>
E == Trace[l]
V(t, v) == [ty |-> t, v |-> v]
TrDefaults == <<V("int", 0), V("bool", 0), V("str", 0), V("none", 0), V("str", 0)>>
TrOptional == {4, 5}
Move == CASE E.op = "open" -> Open(E.s)
          [] E.op = "set" -> Set(E.s, E.p, E.x)
          [] E.op = "temp" -> Temp(E.s, E.p, E.x)
          [] E.op = "untemp" -> Untemp(E.s)
          [] E.op = "save" -> Save(E.s)
          [] E.op = "close" -> Close(E.s)
          [] E.op = "edit" -> Edit(E.p, E.x)
          [] E.op = "upgrade" -> Upgrade
          [] OTHER -> UNCHANGED vars
(* the state after the move is given by the primed variables *)
Clauses ==
    {c \in {"type-not-refused", "raises", "block-exception", "value-wrong", "view-differs", "others-changed",
            "file-missing", "file-values", "file-version", "file-rewritten", "unknown-accepted"} :
       CASE c = "raises" -> E.op \in {"open", "save"} /\ E.exc # ""
         [] c = "type-not-refused" -> E.op \in {"set", "temp"} /\ E.exc # (IF TypeOk(E.s, E.p, E.x) THEN "" ELSE "TypeError")
         [] c = "block-exception" -> E.op = "untemp" /\ E.exc # "kept"
         [] c = "value-wrong" -> E.op \in {"open", "set", "temp", "untemp", "save"} /\ sess'[E.s].open
                                 /\ E.vals # sess'[E.s].vals
         [] c = "view-differs" -> E.op \in {"open", "set", "temp", "untemp", "save"} /\ sess'[E.s].open /\ ~E.views
         [] c = "others-changed" -> E.op \in {"open", "set", "temp", "untemp", "save"} /\ ~E.others
         [] c = "unknown-accepted" -> E.op \in {"open", "set", "temp", "untemp", "save"} /\ E.unknown # "ValueError ValueError ValueError ValueError"
         [] c = "file-missing" -> E.op \in {"save", "close", "set", "untemp"} /\ E.there # disk'.there
         [] c = "file-values" -> E.op \in {"save", "close", "set", "untemp"} /\ E.there /\ disk'.there /\ E.file # disk'.vals
         [] c = "file-version" -> E.op = "save" /\ E.there /\ disk'.there /\ E.cur # disk'.cur
         [] c = "file-rewritten" -> E.op \in {"save", "close", "set", "untemp"} /\ E.there /\ disk' = disk /\ E.wrote}
Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)
Fresh == /\ disk' = [there |-> FALSE, cur |-> TRUE, vals |-> Defaults, stamp |-> 0] /\ sess' = [s \in {1, 2} |-> Closed]
Init == /\ disk = [there |-> FALSE, cur |-> TRUE, vals |-> Defaults, stamp |-> 0] /\ sess = [s \in {1, 2} |-> Closed]
        /\ l = 1 /\ dead = FALSE
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF E.op = "begin" THEN Fresh /\ dead' = FALSE
       ELSE IF dead THEN UNCHANGED <<vars, dead>>
       ELSE /\ Move
            /\ LET cs == Clauses IN IF cs = {} THEN UNCHANGED dead ELSE Report(cs) /\ dead' = TRUE
Spec == Init /\ [][Next]_allvars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
