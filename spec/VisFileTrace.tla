--------------------------- MODULE VisFileTrace ---------------------------
(* Recorded writers and readers of visibility files against VisFile *)
EXTENDS VisFile, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, dead, ep
allvars == <<vars, l, dead, ep>>
E == Trace[l]
Sorted(bls) == \A i \in 1..Len(bls) - 1 : bls[i][1] < bls[i + 1][1] \/ (bls[i][1] = bls[i + 1][1] /\ bls[i][2] < bls[i + 1][2])
Names(ps) == [i \in 1..Len(ps) |-> ep.fam[ps[i]]]
Kind == CASE conf.fmt = "uv" -> "CorrelatedDataUV" [] conf.fmt = "ms" -> "CorrelatedDataMS" [] OTHER -> "CorrelatedDataIDI"
Abs(x) == IF x < 0 THEN -x ELSE x

(* one integration that was read: g, the i-th of the file *)
TimeOk(g, i) == g.t = Stored[i] /\ \E r \in Integration(i, TRUE, -1, 100000) : g.int = r.int
BlOk(g, i) == LET want == Integration(i, E.auto, E.lo, E.hi) IN
    /\ Len(g.bls) = Cardinality(want)
    /\ Range(g.bls) = {<<r.a, r.b>> : r \in want}
    /\ E.sort => Sorted(g.bls)
PolOk(g) == g.pols = Names(conf.pols)
CellsOk(g, i) == LET want == Integration(i, E.auto, E.lo, E.hi) IN
    \A p \in 1..Len(conf.pols) :
      /\ Len(g.cells[p]) = Len(g.bls)
      /\ \A b \in 1..Len(g.bls) :
           LET r == CHOOSE r \in want : <<r.a, r.b>> = g.bls[b] IN
           /\ Len(g.cells[p][b]) = NChan
           /\ \A c \in 1..NChan : g.cells[p][b][c] = r.cells[conf.pols[p]][c]
(* towards the zenith u, v, w are east, north and up, in tenths of a meter *)
UvwOk(g) == /\ Len(g.uvw) = Len(g.bls)
            /\ \A b \in 1..Len(g.bls), c \in 1..NChan, x \in 1..3 :
                 Abs(g.uvw[b][c][x] - 10 * (conf.pos[g.bls[b][1]][x] - conf.pos[g.bls[b][2]][x])) <= 1

Sets == IF E.sort THEN SortBy(Range(E.sets), [x \in Range(E.sets) |-> x]) ELSE E.sets
Count(i) == Cardinality(Integration(i, E.auto, -1, 100000))
(* integrations with different numbers of baselines do not go together, nor does one with itself *)
MayRaise == \/ Cardinality(Range(E.sets)) < Len(E.sets)
            \/ \E i, j \in Range(E.sets) : Count(i) # Count(j)
Clauses ==
    CASE E.op = "add" -> {}
      [] E.op = "write" -> {c \in {"write-accepts", "write-refuses"} :
                              CASE c = "write-accepts" -> E.ok /\ ~Writable(data) [] c = "write-refuses" -> ~E.ok /\ Writable(data)}
      [] E.op = "exists" -> {c \in {"existing-file"} : ~E.kept}
      [] E.op = "meta" ->
            {c \in {"format", "integrations", "polarizations", "frequencies", "stands", "positions", "site"} :
               CASE c = "format" -> E.kind # Kind
                 [] c = "integrations" -> E.count # Len(Stored) \/ E.rows # Len(rows) * (IF conf.fmt = "ms" THEN conf.bands ELSE 1)
                 [] c = "polarizations" -> E.pols # Names(conf.pols)
                 [] c = "frequencies" -> E.freq # ep.kfreq
                 [] c = "stands" -> E.stands # conf.stands \/ E.stands2 # conf.stands
                 [] c = "positions" -> E.pos # [i \in 1..Len(conf.pos) |-> [x \in 1..3 |-> conf.pos[i][x] - conf.pos[1][x]]]
                 [] c = "site" -> Abs(E.high - 2134) > 3 \/ Abs(E.lat - 34070) > 1 \/ Abs(E.lng + 107628) > 1}
      [] E.op = "readraise" -> {c \in {"read-raises"} : ~MayRaise}
      [] E.op = "read" ->
            IF Len(E.got) # Len(Sets) THEN {"read-count"} ELSE
            {c \in {"read-time", "read-baselines", "read-polarizations", "read-data", "read-uvw", "read-frequencies", "read-phase-center"} :
               \E i \in 1..Len(Sets) : LET g == E.got[i] IN
                 CASE c = "read-time" -> ~TimeOk(g, Sets[i])
                   [] c = "read-baselines" -> ~BlOk(g, Sets[i])
                   [] c = "read-polarizations" -> ~PolOk(g)
                   [] c = "read-data" -> BlOk(g, Sets[i]) /\ PolOk(g) /\ ~CellsOk(g, Sets[i])
                   [] c = "read-uvw" -> BlOk(g, Sets[i]) /\ ~UvwOk(g)
                   [] c = "read-frequencies" -> g.freq # ep.kfreq
                   [] c = "read-phase-center" -> g.alt # 90}
Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)
Init == Open(<< >>) /\ l = 1 /\ dead = FALSE /\ ep = << >>
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF E.op = "begin"
       THEN conf' = E.conf /\ data' = << >> /\ state' = "open" /\ rows' = << >> /\ dead' = FALSE /\ ep' = E
       ELSE /\ UNCHANGED ep
            /\ IF dead THEN UNCHANGED <<vars, dead>>
               ELSE LET cs == Clauses IN
                    IF cs # {} THEN Report(cs) /\ dead' = TRUE /\ UNCHANGED vars
                    ELSE /\ UNCHANGED dead
                         /\ CASE E.op = "add" -> Add([k |-> E.k, t |-> E.t, pol |-> E.pol, int |-> E.int, wgt |-> E.wgt, bls |-> E.bls])
                              [] E.op = "write" -> Write
                              [] OTHER -> UNCHANGED vars
Spec == Init /\ [][Next]_allvars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
