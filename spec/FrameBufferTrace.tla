-------------------------- MODULE FrameBufferTrace -------------------------
(***************************************************************************)
(* Replays executions recorded from the real buffers through the           *)
(* specification.  Total: an event the specification does not explain is   *)
(* written to the verdict file with the clause it fails, and the rest of   *)
(* that episode is skipped.                                                *)
(***************************************************************************)
EXTENDS FrameBuffer, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, dead
allvars == <<vars, l, dead>>

E == Trace[l]
ToSet(q) == {q[i] : i \in 1..Len(q)}

(* A recorded segment against the expected one: frames are                 *)
(* [t, id, s, valid, attrs]; s = 0 all-zero data, s < 0 corrupted data.    *)
SegClauses(fr, t, want, sorted) ==
    {c \in {"segment-size", "frame-time", "identity-set", "duplicate-in-segment", "fill-not-zero-or-wrong-data",
            "valid-flag", "frame-attributes", "reorder"} :
        CASE c = "segment-size" -> Len(fr) # Cardinality(ids)
          [] c = "frame-time" -> \E i \in 1..Len(fr) : fr[i].t # t
          [] c = "identity-set" -> {fr[i].id : i \in 1..Len(fr)} # ids
          [] c = "duplicate-in-segment" -> Cardinality({fr[i].id : i \in 1..Len(fr)}) # Len(fr)
          [] c = "fill-not-zero-or-wrong-data" -> \E i \in 1..Len(fr) : fr[i].id \in ids /\ fr[i].s # want[fr[i].id]
          [] c = "valid-flag" -> \E i \in 1..Len(fr) : fr[i].id \in ids /\ fr[i].valid # (want[fr[i].id] # 0)
          [] c = "frame-attributes" -> \E i \in 1..Len(fr) : ~fr[i].attrs
          [] c = "reorder" -> sorted /\ \E i \in 1..Len(fr)-1 : fr[i].id > fr[i+1].id }

OldSeg == Segment(buf[MinOf(Slots)])
Clauses ==
    CASE E.op = "put" -> {c \in {"put-raises"} : E.exc # ""}
      [] E.op = "get" ->
            IF E.exc # "" THEN {"get-raises"}
            ELSE IF Filled
                 THEN IF E.none THEN {"get-withholds-ready-segment"}
                      ELSE SegClauses(E.frames, MinOf(Slots), OldSeg, E.sorted)
                 ELSE IF E.none THEN {} ELSE {"get-releases-too-early"}
      [] E.op = "getoldest" ->
            IF E.exc # "" THEN {"get-raises"}
            ELSE IF Slots # {}
                 THEN IF E.none THEN {"peek-withholds-segment"}
                      ELSE SegClauses(E.frames, MinOf(Slots), OldSeg, E.sorted)
                 ELSE IF E.none THEN {} ELSE {"segment-out-of-nothing"}
      [] E.op = "flush" ->
            IF E.exc # "" THEN {"flush-raises"}
            ELSE IF Len(E.groups) # Len(FlushOrder) THEN {"flush-segment-count"}
                 ELSE UNION {SegClauses(E.groups[i], FlushOrder[i], Segment(buf[FlushOrder[i]]), E.sorted)
                             : i \in 1..Len(E.groups)}
      [] E.op = "stat" ->
            {c \in {"full", "partial", "missing", "dropped", "empty", "filled", "overfilled"} :
               CASE c = "full" -> E.full # stat.full
                 [] c = "partial" -> E.partial # stat.partial
                 [] c = "missing" -> E.missing # stat.missing
                 [] c = "dropped" -> E.dropped # stat.dropped
                 [] c = "empty" -> E.empty # (Slots = {})
                 [] c = "filled" -> E.filled # Filled
                 [] c = "overfilled" -> E.overfilled # (Cardinality(Slots) > nseg)}
      [] OTHER -> {}

Move ==
    CASE E.op = "put" -> Put(E.t, E.id, E.s)
      [] E.op = "get" -> Get
      [] E.op = "getoldest" -> GetOldest
      [] E.op = "flush" -> Flush
      [] E.op = "reset" -> Reset
      [] OTHER -> UNCHANGED vars

Begin ==
    /\ ids' = 1..E.nids
    /\ nseg' = E.nseg
    /\ buf' = << >>
    /\ mark' = 0
    /\ stat' = ZeroStat
    /\ rel' = << >>
    /\ dead' = FALSE

Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)

Init == InitWith({1}, 1) /\ l = 1 /\ dead = FALSE
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF E.op = "begin" THEN Begin
       ELSE IF dead THEN UNCHANGED <<vars, dead>>
       ELSE LET cs == Clauses IN
            IF cs = {} THEN Move /\ UNCHANGED dead
            ELSE Report(cs) /\ dead' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][Next]_allvars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
