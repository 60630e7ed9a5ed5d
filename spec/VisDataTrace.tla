--------------------------- MODULE VisDataTrace ---------------------------
(* Recorded operations on visibility data against VisData.  Every event has *)
(* all of the objects, lists and polarizations after the operation.         *)
EXTENDS VisData, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, dead
allvars == <<vars, l, dead>>
E == Trace[l]
Move ==
    CASE E.op = "new" -> New(Fresh(N + 1, E.t, E.bls, E.pols))
      [] E.op = "copy" -> Copy(E.i)
      [] E.op = "bare" -> CopyBare(E.i)
      [] E.op = "set" -> Set(E.i, E.p, E.b, E.c, E.v)
      [] E.op = "setuv" -> SetUv(E.i, E.b, E.v)
      [] E.op = "setfreq" -> SetFreq(E.i, E.c, E.v)
      [] E.op = "addpol" -> AddPol(E.i, E.p, E.k)
      [] E.op = "sort" -> Sort(E.i)
      [] E.op = "sortas" -> SortAs(E.i, E.idx)
      [] E.op = "range" -> UvRange(E.i, E.lo, E.hi)
      [] E.op = "subset" -> Subset(E.i, E.inc, E.exc)
      [] E.op = "to" -> To(E.i, E.to)
      [] E.op = "add" -> Add(E.x, E.i)
      [] E.op = "make" -> Make(E.x, E.l)
      [] E.op = "put" -> Put(E.x, E.k, E.i)
      [] E.op = "pop" -> Pop(E.x, E.k)
      [] E.op = "sortlist" -> SortList(E.x)
      [] E.op = "copylist" -> CopyList(E.x, E.y)
      [] E.op = "rangelist" -> RangeList(E.x, E.y, E.lo, E.hi)
      [] E.op = "subsetlist" -> SubsetList(E.x, E.y, E.inc, E.exc)
      [] E.op = "tolist" -> ToList(E.x, E.y, E.to)
      [] E.op = "pnew" -> PNew
      [] E.op = "padd" -> PAdd(E.i, E.k, E.n, E.full)
      [] E.op = "pcopy" -> PCopy(E.i)
      [] E.op = "ppick" -> PPick(E.i, E.idx)
      [] E.op = "psort" -> PSort(E.i, E.idx)
      [] E.op = "pset" -> PSet(E.i, E.b, E.c, E.v)
Raises == CASE E.op = "to" -> ~CanConvert(heap[E.i], E.to)
            [] E.op = "tolist" -> \E i \in Range(lists[E.x]) : ~CanConvert(heap[i], E.to)
            [] E.op = "add" -> ~Fits(E.x, E.i)
            [] OTHER -> FALSE
(* the objects of the implementation against those of the specification after the move *)
SameBut(o, g) == o.t = g.t /\ o.f = g.f /\ o.bls = g.bls /\ o.uv = g.uv /\ Len(o.pols) = Len(g.pols) /\ Range(o.pols) = Range(g.pols)
Cells(o, g) == \A p \in Range(o.pols) : o.d[p] = g.d[p]
Heads(o, h, s) == /\ h.t = s /\ IF o = << >> THEN h.f = << >> /\ h.bls = << >> /\ h.pols = << >> /\ h.n = <<0, 0, 0>>
                                 ELSE h.f = o[1].f /\ h.bls = o[1].bls /\ h.pols = o[1].pols /\ h.n = <<Len(o[1].bls), Len(o[1].f), Len(o[1].pols)>>
Old == {i \in 1..N : heap'[i] = heap[i]}
Clauses ==
    IF E.raised # Raises THEN {IF E.raised THEN "raises" ELSE "not-refused"} ELSE
    IF Len(E.heap) # Len(heap') THEN {"objects"} ELSE
    {c \in {"others-changed", "axes", "data", "list", "popped", "summary", "pol-data", "arguments"} :
       CASE c = "others-changed" -> \E i \in Old : ~(SameBut(heap'[i], E.heap[i]) /\ Cells(heap'[i], E.heap[i]))
         [] c = "axes" -> \E i \in 1..Len(heap') \ Old : ~SameBut(heap'[i], E.heap[i])
         [] c = "data" -> \E i \in 1..Len(heap') \ Old : SameBut(heap'[i], E.heap[i]) /\ ~Cells(heap'[i], E.heap[i])
         [] c = "list" -> \E x \in DOMAIN lists' : lists'[x] # E.lists[x]
         [] c = "popped" -> E.op = "pop" /\ E.got # lists[E.x][E.k]
         [] c = "summary" -> (\E x \in DOMAIN lists' : lists'[x] # << >> /\ (\A k \in 1..Len(lists'[x]) : heap'[lists'[x][k]].t = E.sum[x][k]) = FALSE)
                            \/ \E y \in DOMAIN lists' : lists'[y] = E.lists[y] /\ ~Heads(IF lists'[y] = << >> THEN << >> ELSE <<E.heap[lists'[y][1]]>>, E.head[y], E.sum[y])
         [] c = "pol-data" -> pds' # E.pds
         [] c = "arguments" -> ~E.args}
Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)
Empty == [x \in {"a", "b", "c"} |-> << >>]
Init == heap = << >> /\ lists = Empty /\ pds = << >> /\ l = 1 /\ dead = FALSE
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF E.op = "begin" THEN heap' = << >> /\ lists' = Empty /\ pds' = << >> /\ dead' = FALSE
       ELSE IF dead THEN UNCHANGED <<vars, dead>>
       ELSE /\ Move
            /\ LET cs == Clauses IN IF cs = {} THEN UNCHANGED dead ELSE Report(cs) /\ dead' = TRUE
Spec == Init /\ [][Next]_allvars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
