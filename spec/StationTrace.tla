---------------------------- MODULE StationTrace ----------------------------
(* Recorded uses of lsl.common.stations against Station.                     *)
EXTENDS Station, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, dead, sts
vars == <<l, dead, sts>>
E == Trace[l]
(* Where the wiring of the ASP is not that of the stands, the attenuation is not judged. *)
Plain(a) == (a.arx[3] + 1) \div 2 = a.std
Of(as, id) == as[CHOOSE i \in DOMAIN as : as[i].id = id]
With(a, pos) == [x \in DOMAIN a \cup {"xyz"} |-> IF x = "xyz" THEN pos[a.std] ELSE a[x]]
Ants(as, pos) == {With(as[i], pos) : i \in DOMAIN as}
Sorted(as) == \A i \in DOMAIN as : i > 1 => as[i - 1].dig <= as[i].dig
Same(m, g) == /\ \A k \in {"id", "name", "lat", "lon", "el", "gain", "min", "ndp"} : m[k] = g[k]
              /\ Len(m.ants) = Len(g.ants) /\ ToSet(g.ants) = Ants(m.ants, m.pos) /\ Sorted(g.ants)
(* The attenuation that is not judged is the one that is seen. *)
Seen(m, g) == [m EXCEPT !.ants = [i \in DOMAIN m.ants |-> LET a == m.ants[i] IN
                 IF Plain(a) \/ ~\E j \in DOMAIN g.ants : g.ants[j].id = a.id THEN a ELSE [a EXCEPT !.att = Of(g.ants, a.id).att]]]
Tweaked(m) == LET i == CHOOSE j \in DOMAIN m.ants : m.ants[j].id = E.a IN
    CASE E.w = "min" -> [m EXCEPT !.min = E.v] [] E.w = "gain" -> [m EXCEPT !.gain = E.v]
      [] E.w = "pos" -> [m EXCEPT !.pos[m.ants[i].std] = <<1000*E.v, @[2], @[3]>>] [] OTHER -> [m EXCEPT !.ants[i][E.w] = E.v]
Move ==
    CASE E.op = "parse" -> LET t == Tables(E.lines) IN IF ~t.ok \/ E.err # "" THEN UNCHANGED sts ELSE sts' = Append(sts, Seen(Build(t), E.live[Len(sts) + 1]))
      [] E.op = "clone" /\ E.kept -> sts' = Append(sts, sts[E.s])
      [] E.op = "tweak" -> sts' = [sts EXCEPT ![E.s] = Tweaked(@)]
      [] E.op = "sdm" /\ E.adopt -> sts' = [sts EXCEPT ![E.s].ants = Updated(@, E.st)]
      [] OTHER -> UNCHANGED sts
Clauses ==
    (IF E.op = "parse" /\ ~Tables(E.lines).ok THEN IF E.err = "RuntimeError" THEN {} ELSE {"version"} ELSE IF E.err # "" THEN {"raises"} ELSE {})
    \cup (IF E.err # "" THEN {}
          ELSE {c \in {"station", "apart", "copy", "update", "handle", "place"} :
                  CASE c = "place" -> ~E.loc
                    [] c = "handle" -> E.op = "parse" /\ ~E.open
                    [] c = "station" -> E.op \in {"parse", "tweak", "assign"} /\ \E i \in DOMAIN sts' : (E.op = "parse" => i = Len(sts')) /\ (E.op # "parse" => i = E.s) /\ ~Same(sts'[i], E.live[i])
                    [] c = "apart" -> Len(E.live) # Len(sts') \/ \E i \in DOMAIN sts' : ~Same(sts'[i], E.live[i])
                    [] c = "copy" -> E.op = "clone" /\ ~Same(sts[E.s], E.got)
                    [] OTHER -> E.op = "sdm" /\ LET g == E.got w == Updated(sts[E.s].ants, E.st) IN Len(g) # Len(w) \/ ToSet(g) # Ants(w, sts[E.s].pos)})
Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)
Init == l = 1 /\ dead = FALSE /\ sts = << >>
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF E.op = "begin" THEN dead' = FALSE /\ sts' = << >>
       ELSE IF dead THEN UNCHANGED <<dead, sts>>
       ELSE /\ Move
            /\ LET cs == Clauses IN dead' = (cs # {}) /\ Report(cs)
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
