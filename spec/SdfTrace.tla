------------------------------ MODULE SdfTrace ------------------------------
(* Recorded uses of lsl.common.sdf against Sdf.                              *)
EXTENDS Sdf, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, dead, ss, file
vars == <<l, dead, ss, file>>
E == Trace[l]
AsSet(s) == {s[i] : i \in DOMAIN s}
FixArr(a) == [x \in Arrays |-> [b |-> a[x].b, ov |-> AsSet(a[x].ov)]]
FixStep(t) == [t EXCEPT !.dl = AsSet(@), !.gn = AsSet(@)]
FixObs(o) == [o EXCEPT !.arr = FixArr(@), !.steps = [i \in DOMAIN o.steps |-> FixStep(o.steps[i])]]
(* all of what an observation in memory says *)
Exact(o, p) == Same(o, p) /\ o.gain = p.gain
Sess(k) == ss[k]
Edge == \E k \in DOMAIN ss : \E i \in DOMAIN ss[k].sky : ss[k].sky[i] = "edge"
Ups(s) == [h |-> s.h, ucf |-> s.ucf, obs |-> s.obs, up |-> [i \in DOMAIN s.sky |-> s.sky[i] = "up"]]
AllGood == \A k \in DOMAIN ss : GoodSession(Ups(ss[k]))
OrderOf(s) == SortSeq([i \in DOMAIN s.obs |-> i], LAMBDA a, b : Begin(s.obs[a]) < Begin(s.obs[b]))
Sorted(s) == LET p == OrderOf(s) IN [s EXCEPT !.obs = [i \in DOMAIN p |-> s.obs[p[i]]], !.sky = [i \in DOMAIN p |-> s.sky[p[i]]]]
Raise(f) == CASE f = "mib" -> "KeyError"
              [] f \in {"append", "extend", "insert", "setitem", "ctor", "steplist", "observer"} -> "TypeError"
              [] OTHER -> "ValueError"
Changed(o) == LET t == At(E.st) IN
    Settle(CASE E.f = "start" -> [o EXCEPT !.mjd = t.mjd, !.mpm = t.mpm] [] E.f = "dur" -> [o EXCEPT !.dur = E.du] [] E.f = "f1" -> [o EXCEPT !.f1 = E.w] [] OTHER -> [o EXCEPT !.bw = E.bw])
Span(o) == E.span = <<Begin(o), End(o)>>
Is(m, g) == m.h = g.h /\ Len(m.obs) = Len(g.obs) /\ \A i \in DOMAIN m.obs : Same(m.obs[i], FixObs(g.obs[i]))
Move ==
    CASE E.op = "session" -> ss' = Append(ss, [h |-> E.h, ucf |-> E.ucf, obs |-> << >>, sky |-> << >>])
      [] E.op = "obs" -> ss' = [ss EXCEPT ![E.s] = [@ EXCEPT !.obs = Append(@, Settle(FixObs(E.o))), !.sky = Append(@, E.sky)]]
      [] E.op = "change" -> ss' = [ss EXCEPT ![E.s] = [@ EXCEPT !.obs[E.i] = Changed(@), !.sky[E.i] = E.sky]]
      [] E.op = "render" /\ E.ok -> ss' = [ss EXCEPT ![E.s] = Sorted(@)]
      [] OTHER -> UNCHANGED ss
Clauses ==
    CASE E.op = "session" -> {c \in {"raises", "session"} : IF c = "raises" THEN E.err # "" ELSE E.err = "" /\ E.got # E.h}
      [] E.op \in {"obs", "change"} ->
           LET s == ss'[E.s]
               o == s.obs[IF E.op = "obs" THEN Len(s.obs) ELSE E.i] IN
           IF E.err # "" THEN {"raises"} ELSE
           {c \in {"built", "count", "parent", "span"} :
              CASE c = "built" -> ~Exact(o, FixObs(E.got)) [] c = "count" -> E.n # Len(s.obs) [] c = "parent" -> ~E.parent [] OTHER -> ~Span(o)}
      [] E.op = "validate" -> {c \in {"accepted", "refused", "raises"} : CASE c = "raises" -> E.err # "" [] c = "accepted" -> ~Edge /\ E.ok /\ ~AllGood [] OTHER -> ~Edge /\ ~E.ok /\ AllGood}
      [] E.op = "reject" -> {c \in {"reject", "kept"} : IF c = "reject" THEN E.err # Raise(E.f) ELSE ~E.kept}
      [] E.op = "render" ->
           IF ~E.ok THEN {c \in {"refused", "error", "file"} : CASE c = "refused" -> ~Edge /\ AllGood [] c = "error" -> E.err # "RuntimeError" [] OTHER -> ~E.file}
           ELSE {c \in {"accepted", "says", "again", "file"} :
                   CASE c = "accepted" -> ~Edge /\ ~AllGood
                     [] c = "says" -> ~Holds(Means(E.lines), ss[E.s])
                     [] c = "again" -> ~E.again
                     [] OTHER -> ~E.file}
      [] E.op = "parse" -> {c \in {"raises", "read", "ucf", "rewrite", "parents", "valid"} :
                   CASE c = "raises" -> E.err # ""
                     [] E.err # "" -> FALSE
                     [] c = "read" -> ~Is(Means(file), E.got)
                     [] c = "ucf" -> E.ucf # ss[E.s].ucf
                     [] c = "rewrite" -> ~E.same
                     [] c = "parents" -> ~E.parents
                     [] OTHER -> ~E.valid}
      [] E.op = "edit" -> {c \in {"raises", "read"} : IF c = "raises" THEN E.err # "" ELSE E.err = "" /\ ~Is(Means(E.lines), E.got)}
      [] OTHER -> {}
Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)
Init == l = 1 /\ dead = FALSE /\ ss = << >> /\ file = << >>
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF E.op = "begin" THEN ss' = << >> /\ file' = << >> /\ dead' = FALSE
       ELSE IF dead THEN UNCHANGED <<ss, file, dead>>
       ELSE /\ Move
            /\ file' = IF E.op = "render" /\ E.ok THEN E.lines ELSE file
            /\ LET cs == Clauses IN IF cs = {} THEN UNCHANGED dead ELSE Report(cs) /\ dead' = TRUE
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
