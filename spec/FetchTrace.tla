----------------------------- MODULE FetchTrace ----------------------------
EXTENDS Fetch, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES loc, srv, bad, kept, loose, now, l, dead
vars == <<loc, srv, bad, kept, loose, now>>
allvars == <<vars, l, dead>>
E == Trace[l]
Empty == [n \in Names |-> Nothing]
Min2(x, y) == IF x < y THEN x ELSE y
----------------------------------------------------------------------------
(* What a fetch of a name may leave in place; one that was killed before may have left nothing. *)
May(n) == Fetched(loc, srv, bad, n, kept[n], now) \cup (IF loose[n] THEN FirstTime(loc, srv, bad, n) ELSE {})
SizeOf(n, v) == LET S == {f \in {loc[n], srv["A"][n], srv["B"][n], kept[n]} : f.ver = v} IN IF S = {} THEN -1 ELSE (CHOOSE f \in S : TRUE).size
(* ver: the version that was read, 0 for an error, -1 for something that is no version *)
OpenClauses == {c \in {"not-whole", "not-the-file", "wrong-error", "size"} :
    CASE c = "wrong-error" -> E.exc \notin {"", "RuntimeError"}
      [] c = "not-whole" -> E.ver = -1
      [] c = "not-the-file" -> E.exc \in {"", "RuntimeError"} /\ E.ver # -1 /\ E.ver \notin May(E.n)
      [] c = "size" -> E.ver > 0 /\ E.size # SizeOf(E.n, E.ver)}
FetchClauses == {c \in {"wrong-error", "not-fetched", "size"} :
    CASE c = "wrong-error" -> E.exc \notin {"", "RuntimeError"}
      [] c = "not-fetched" -> IF E.exc = "" THEN May(E.n) = {0} ELSE 0 \notin May(E.n)
      [] c = "size" -> E.exc = "" /\ E.size \notin {SizeOf(E.n, v) : v \in May(E.n) \ {0}}}
(* after a fetch that is not looked into: the versions of that size *)
After(n, size) == {v \in May(n) \ {0} : SizeOf(n, v) = size}
SizeClauses == {c \in {"size"} : IF kept[E.n].ver = 0 THEN ~loose[E.n] /\ E.size # -1
                                 ELSE E.size # kept[E.n].size /\ ~(loose[E.n] /\ E.size = -1)}
(* A fetch of another process: it ended by itself or was killed. *)
KillClauses == {c \in {"wrong-error", "not-fetched"} :
    CASE c = "wrong-error" -> E.end \notin {"done", "RuntimeError", "killed"}
      [] c = "not-fetched" -> (E.end = "done" /\ May(E.n) = {0}) \/ (E.end = "RuntimeError" /\ 0 \notin May(E.n))}
(* ---- downloads by hand ---- *)
Part(r, size) == IF r = << >> THEN <<0, size - 1>> ELSE <<r[1], Min2(r[2], size - 1)>>
Zeros == E.v = <<0, 0>> /\ E.mt = "zero"
Honest(f) == LET p == Part(E.r, f.size) IN
             /\ E.v = <<E.wire, E.wire>> /\ E.got = <<f.ver, p[1], p[2]>> /\ E.mt \in {"right", "zero"}
DirectClauses == LET f == srv[E.s][E.n] b == bad[E.s] IN
    IF E.to = "text" THEN {c \in {"text-taken"} : E.exc # "RuntimeError"}
    ELSE IF E.exc # "" THEN {"raises-" \o E.exc}
    ELSE LET none == f.ver = 0 \/ b \in {"down", "reset", "error"} \/ (E.r # << >> /\ E.r[1] >= f.size)
             may == b \in {"nolen", "baddate"} IN
         IF E.to = "check" THEN {c \in {"check"} :
             ~(IF none THEN Zeros
               ELSE \/ may /\ Zeros
                    \/ E.v[1] = Part(E.r, f.size)[2] - Part(E.r, f.size)[1] + 1 /\ (E.mt = "right" \/ (b \in {"nodate", "baddate"} /\ E.mt = "zero")))}
         ELSE {c \in {"download"} :
             ~(IF none THEN Zeros
               ELSE CASE b \in {"short", "shortgzip"} -> Zeros \/ (E.v[1] = E.wire /\ E.v[2] < E.wire /\ (b = "shortgzip" \/ E.pre = E.v[2]))
                      [] may -> Zeros \/ Honest(f) \/ E.got[1] = f.ver
                      [] OTHER -> Honest(f) /\ (E.mt = "right" \/ b = "nodate"))}
Clauses == CASE E.op \in {"open", "text"} -> OpenClauses
             [] E.op = "fetch" -> FetchClauses
             [] E.op = "size" -> SizeClauses
             [] E.op = "kill" -> KillClauses
             [] E.op = "direct" -> DirectClauses
             [] OTHER -> {}
Keep(n, v) == LET old == kept[n] IN
              IF v = old.ver /\ v # 0 /\ ~loose[n] THEN kept
              ELSE [kept EXCEPT ![n] = IF v = 0 THEN Nothing ELSE File(v, IF v = old.ver /\ now - old.at < Old THEN old.at ELSE now, SizeOf(n, v))]
Firm(n) == [loose EXCEPT ![n] = FALSE]
(* What is kept cannot be told any more: the rest of the history is not judged. *)
Unsure == CASE E.op = "fetch" -> E.exc = "" /\ (Cardinality(After(E.n, E.size)) > 1 \/ loose[E.n])
            [] E.op = "kill" -> E.end = "done" /\ (Cardinality(May(E.n) \ {0}) > 1 \/ loose[E.n])
            [] E.op \in {"open", "text"} -> loose[E.n] /\ E.ver # 0 /\ E.ver = kept[E.n].ver
            [] OTHER -> FALSE
Move ==
    /\ now' = now + (IF E.op = "wait" THEN E.d ELSE 1)
    /\ CASE E.op = "edit" -> LET f == IF E.ver = 0 THEN Nothing ELSE File(E.ver, now, E.size) IN
              /\ loc' = IF E.w = "local" THEN [loc EXCEPT ![E.n] = f] ELSE loc
              /\ srv' = [s \in Servers |-> IF E.w = s \/ E.w = "AB" THEN [srv[s] EXCEPT ![E.n] = f] ELSE srv[s]]
              /\ UNCHANGED <<bad, kept, loose>>
         [] E.op = "fault" -> bad' = [bad EXCEPT ![E.s] = E.f] /\ UNCHANGED <<loc, srv, kept, loose>>
         [] E.op \in {"open", "text"} -> kept' = Keep(E.n, E.ver) /\ loose' = Firm(E.n) /\ UNCHANGED <<loc, srv, bad>>
         [] E.op = "fetch" -> /\ UNCHANGED <<loc, srv, bad>>
                              /\ IF E.exc # "" THEN kept' = Keep(E.n, 0) /\ loose' = Firm(E.n)
                                 ELSE kept' = Keep(E.n, CHOOSE v \in After(E.n, E.size) : TRUE) /\ loose' = Firm(E.n)
         [] E.op = "remove" -> kept' = [kept EXCEPT ![E.n] = Nothing] /\ loose' = Firm(E.n) /\ UNCHANGED <<loc, srv, bad>>
         [] E.op = "kill" -> /\ UNCHANGED <<loc, srv, bad>>
                             /\ CASE E.end = "done" -> kept' = Keep(E.n, CHOOSE v \in May(E.n) \ {0} : TRUE) /\ loose' = Firm(E.n)
                                  [] E.end = "RuntimeError" -> kept' = Keep(E.n, 0) /\ loose' = Firm(E.n)
                                  [] OTHER -> loose' = [loose EXCEPT ![E.n] = TRUE] /\ UNCHANGED kept
         [] OTHER -> UNCHANGED <<loc, srv, bad, kept, loose>>
Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)
Fresh == loc' = Empty /\ srv' = [s \in Servers |-> Empty] /\ bad' = [s \in Servers |-> "none"] /\ kept' = Empty /\ loose' = [n \in Names |-> FALSE] /\ now' = 1
Init == loc = Empty /\ srv = [s \in Servers |-> Empty] /\ bad = [s \in Servers |-> "none"] /\ kept = Empty /\ loose = [n \in Names |-> FALSE] /\ now = 1 /\ l = 1 /\ dead = FALSE
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF E.op = "begin" THEN Fresh /\ dead' = FALSE
       ELSE IF dead THEN UNCHANGED <<vars, dead>>
       ELSE LET cs == Clauses IN
            IF cs = {} THEN Move /\ dead' = Unsure
            ELSE Report(cs) /\ dead' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][Next]_allvars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
