------------------------------ MODULE IdfTrace ------------------------------
(* Recorded uses of lsl.common.idf against Idf.                              *)
EXTENDS Idf, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, dead, ss, file
vars == <<l, dead, ss, file>>
E == Trace[l]
(* near the horizon or near the edge of the beam nothing is judged *)
EdgeSep(o, sep) == \E i \in DOMAIN sep : LET f == Top(o.f1, o.f2) IN Within((sep[i]*97) \div 100, f) # Within((sep[i]*103) \div 100 + 1, f)
Edge == \E k \in DOMAIN ss : \E i \in DOMAIN ss[k].sky : ss[k].sky[i] = "edge" \/ EdgeSep(ss[k].obs[i], ss[k].sep[i])
Ups(s) == [h |-> s.h, obs |-> s.obs, up |-> [i \in DOMAIN s.sky |-> s.sky[i] = "up"], sep |-> s.sep]
AllGood == \A k \in DOMAIN ss : GoodRun(Ups(ss[k]))
OrderOf(s) == SortSeq([i \in DOMAIN s.obs |-> i], LAMBDA a, b : S!Begin(s.obs[a]) < S!Begin(s.obs[b]))
Sorted(s) == LET p == OrderOf(s) IN [s EXCEPT !.obs = [i \in DOMAIN p |-> s.obs[p[i]]], !.sky = [i \in DOMAIN p |-> s.sky[p[i]]], !.sep = [i \in DOMAIN p |-> s.sep[p[i]]]]
Raise(f) == CASE f \in {"append", "extend", "insert", "setitem", "ctor", "observer", "alt", "station"} -> "TypeError" [] OTHER -> "ValueError"
Span(o) == E.span = <<S!Begin(o), S!End(o)>>
Is(m, g) == m.h = g.h /\ Len(m.obs) = Len(g.obs) /\ \A i \in DOMAIN m.obs : Same(m.obs[i], g.obs[i])
Changed(o) == LET t == S!At(E.st) IN
    CASE E.f = "start" -> [o EXCEPT !.mjd = t.mjd, !.mpm = t.mpm] [] E.f = "dur" -> [o EXCEPT !.dur = E.du] [] E.f = "f1" -> [o EXCEPT !.f1 = E.w]
      [] E.f = "pm" -> [o EXCEPT !.pm = E.pm] [] OTHER -> [o EXCEPT !.alts = << >>]
Move ==
    CASE E.op = "run" -> ss' = Append(ss, [h |-> E.h, obs |-> << >>, sky |-> << >>, sep |-> << >>])
      [] E.op = "scan" -> ss' = [ss EXCEPT ![E.s] = [@ EXCEPT !.obs = Append(@, E.o), !.sky = Append(@, E.sky), !.sep = Append(@, E.sep)]]
      [] E.op = "change" -> ss' = [ss EXCEPT ![E.s] = [@ EXCEPT !.obs[E.i] = Changed(@), !.sky[E.i] = E.sky, !.sep[E.i] = E.sep]]
      [] E.op \in {"render", "sdfs"} /\ E.ok -> ss' = [ss EXCEPT ![E.s] = Sorted(@)]
      [] OTHER -> UNCHANGED ss
Clauses ==
    CASE E.op = "run" -> {c \in {"raises", "run"} : IF c = "raises" THEN E.err # "" ELSE E.err = "" /\ E.got # E.h}
      [] E.op \in {"scan", "change"} ->
           LET s == ss'[E.s]
               o == s.obs[IF E.op = "scan" THEN Len(s.obs) ELSE E.i] IN
           IF E.err # "" THEN {"raises"} ELSE
           {c \in {"built", "count", "parent", "span"} :
              CASE c = "built" -> ~Same(o, E.got) [] c = "count" -> E.n # Len(s.obs) [] c = "parent" -> ~E.parent [] OTHER -> ~Span(o)}
      [] E.op = "validate" -> {c \in {"accepted", "refused", "raises"} : CASE c = "raises" -> E.err # "" [] c = "accepted" -> ~Edge /\ E.ok /\ ~AllGood [] OTHER -> ~Edge /\ ~E.ok /\ AllGood}
      [] E.op = "reject" -> {c \in {"reject", "kept"} : IF c = "reject" THEN E.err # Raise(E.f) ELSE ~E.kept}
      [] E.op = "render" ->
           IF ~E.ok THEN {c \in {"refused", "error", "file"} : CASE c = "refused" -> ~Edge /\ AllGood [] c = "error" -> E.err # "RuntimeError" [] OTHER -> ~E.file}
           ELSE {c \in {"accepted", "says", "again", "file"} :
                   CASE c = "accepted" -> ~Edge /\ ~AllGood
                     [] c = "says" -> ~Holds(Means(E.lines), ss[E.s])
                     [] c = "again" -> ~E.again
                     [] OTHER -> ~E.file}
      [] E.op = "sdfs" ->
           IF ~E.ok THEN {c \in {"refused", "error"} : IF c = "refused" THEN ~Edge /\ AllGood ELSE E.err # "RuntimeError"}
           ELSE {c \in {"accepted", "sessions", "takes"} :
                   CASE c = "accepted" -> ~Edge /\ ~AllGood [] c = "sessions" -> E.got # Sessions(ss[E.s], E.first) [] OTHER -> ~Edge /\ ~E.takes}
      [] E.op = "parse" -> {c \in {"raises", "read", "rewrite", "parents", "valid"} :
                   CASE c = "raises" -> E.err # ""
                     [] E.err # "" -> FALSE
                     [] c = "read" -> ~Is(Means(file), E.got)
                     [] c = "rewrite" -> ~E.same
                     [] c = "parents" -> ~E.parents
                     [] OTHER -> ~E.valid}
      [] E.op = "edit" -> {c \in {"raises", "read"} : IF c = "raises" THEN E.err # "" ELSE E.err = "" /\ ~Is(Means(E.lines), E.got)}
      [] OTHER -> {}
Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)
Init == l = 1 /\ dead = FALSE /\ ss = << >> /\ file = << >>
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF E.op = "begin" THEN ss' = << >> /\ file' = << >> /\ dead' = FALSE
       ELSE IF dead THEN UNCHANGED <<ss, file, dead>>
       ELSE /\ Move
            /\ file' = IF E.op = "render" /\ E.ok THEN E.lines ELSE file
            /\ LET cs == Clauses IN IF cs = {} THEN UNCHANGED dead ELSE Report(cs) /\ dead' = TRUE
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
