----------------------------- MODULE BundleTrace -----------------------------
(* Recorded uses of lsl.common.metabundle and mcs against Bundle.            *)
EXTENDS Bundle, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, dead, fs
vars == <<l, dead, fs>>
E == Trace[l]
Where == <<E.d, E.p>>
There == Where \in DOMAIN fs
B == Trace[fs[Where]].b
Kinds == {m \in ToSet(B) : ~Safe(m)}
(* What a member says, for the question. *)
Says(fn, m) == CASE fn = "ses" -> SesOf(m.data) [] fn = "cs" -> CsOf(m.data, 0, << >>) [] fn = "meta" -> ToSet(MetaOf(m.lines, << >>))
                 [] fn = "sdf" -> m.sdf [] fn = "sdm" -> SdmOf(m.data) [] fn = "mindelay" -> m.v [] fn = "host" -> m.host [] OTHER -> AspOf(m.entries)
IsBroken(c) == Len(c) = 1 /\ "tv" \notin DOMAIN c[1]
IsFail(o) == "fail" \in DOMAIN o
Failed == E.err # ""
Got == IF E.fn = "meta" THEN ToSet(E.got) ELSE E.got
Agrees(fn, m) == CASE fn = "cs" -> (LET c == Says(fn, m) IN IF IsBroken(c) THEN Failed ELSE ~Failed /\ ~E.none /\ E.got = c)
                   [] fn = "mindelay" -> ~Failed /\ IF m.v < 0 THEN E.none ELSE ~E.none /\ E.got = m.v
                   [] fn = "sdm" -> ~Failed /\ ~E.none /\ E.shapes /\ E.got = Says(fn, m)
                   [] OTHER -> ~Failed /\ ~E.none /\ Got = Says(fn, m)
Nothing(fn) == CASE fn \in {"sdm", "mindelay"} -> ~Failed /\ E.none
                 [] fn = "host" -> ~Failed /\ E.got = "unknown"
                 [] fn \in {"begin", "end"} -> ~Failed /\ E.got = NoAsp
                 [] OTHER -> Failed
Right(fn) == LET c == Candidates(B, fn, E.p) IN
    IF c = << >> THEN Nothing(fn)
    ELSE IF Safe(c[1]) THEN Agrees(fn, c[1])
    ELSE Failed \/ Nothing(fn) \/ (LET s == SelectSeq(c, Safe) IN s # << >> /\ Agrees(fn, s[1]))
(* Observations. *)
Opaque == \E m \in ToSet(B) : m.ext = ".obs" /\ ~(Safe(m) /\ Top(m))
Chosen(o) == E.arg = << >> \/ \E i \in DOMAIN E.arg : E.arg[i] = U(o.h.obs)
Plain(g) == [h |-> g.h, steps |-> g.steps, f |-> g.f]
RightObs ==
    LET all == LET s == Observations(B) IN [i \in DOMAIN s |-> ObsOf(s[i].data)]
        bad == \E i \in DOMAIN all : IsFail(all[i]) IN
    IF bad THEN Failed
    ELSE IF Failed THEN Opaque
    ELSE LET want == SelectSeq(all, Chosen) IN
         /\ E.got = [i \in DOMAIN want |-> [h |-> want[i].h, steps |-> want[i].steps, f |-> want[i].f, shapes |-> TRUE]]
         /\ E.bare = (E.arg # << >> /\ Len(want) = 1)
(* All three of the session, the observations and the commands. *)
CanDo(fn) == LET c == Candidates(B, fn, E.p) IN c # << >> /\ \E i \in DOMAIN c : Safe(c[i]) /\ (fn = "cs" => ~IsBroken(CsOf(c[i].data, 0, << >>)))
MustDo(fn) == LET c == Candidates(B, fn, E.p) IN c # << >> /\ Safe(c[1]) /\ (fn = "cs" => ~IsBroken(CsOf(c[1].data, 0, << >>)))
ObsDo == \A m \in ToSet(Observations(B)) : ~IsFail(ObsOf(m.data))
RightValid == IF ~Failed /\ E.got THEN CanDo("ses") /\ CanDo("cs") /\ ObsDo
              ELSE ~(MustDo("ses") /\ MustDo("cs") /\ ObsDo /\ ~Opaque)
RightMode == LET c == Candidates(B, "begin", E.p)
                 a == IF c = << >> \/ ~Safe(c[1]) THEN NoAsp ELSE AspOf(c[1].entries) IN
             \/ c # << >> /\ ~Safe(c[1])
             \/ ~Failed /\ \A p \in DOMAIN a : Commonest(a[p], E.got[p])
Host == LET c == Candidates(B, "host", E.p) IN IF c = << >> THEN "unknown" ELSE IF Safe(c[1]) THEN c[1].host ELSE "?"
Short(h) == IF h = "lwasv-mcs" THEN "lwasv" ELSE h
RightStation ==
    LET c == Candidates(B, "ssmif", E.p)
        d == Candidates(B, "sdm", E.p)
        y == Candidates(B, "mindelay", E.p) IN
    IF (c # << >> /\ ~Safe(c[1])) \/ (d # << >> /\ ~Safe(d[1])) \/ (y # << >> /\ ~Safe(y[1])) \/ (c = << >> /\ Host = "?") THEN TRUE
    ELSE IF c = << >> THEN ~Failed /\ IF Short(Host) \in {"lwa1", "lwasv", "lwana"} THEN ~E.none /\ E.got.whole = Short(Host) ELSE E.none
    ELSE /\ ~Failed /\ ~E.none /\ E.got.whole = "" /\ E.got.name = E.got.rname /\ E.got.mds
         /\ E.got.md = (IF y # << >> /\ y[1].v >= 0 THEN y[1].v ELSE E.got.rmd)
         /\ IF d # << >> /\ E.sdm
            THEN LET a == Raw(d[1].data, 9*Size(STAT) + Size(PARTS), ANTS, "ant") IN
                 /\ Len(E.got.ants) = Len(E.got.ref)
                 /\ \A i \in DOMAIN E.got.ants : LET x == E.got.ants[i] n == 4*(2*(x[1] - 1) + x[2]) IN
                      x[1] = E.got.ref[i][1] /\ x[2] = E.got.ref[i][2] /\ x[3] = SubSeq(a, n + 1, n + 4)
            ELSE E.got.ants = E.got.ref
Answer == CASE ~There -> Failed [] E.fn = "obs" -> RightObs [] E.fn = "valid" -> RightValid [] E.fn = "mode" -> RightMode [] E.fn = "station" -> RightStation [] OTHER -> Right(E.fn)
(* Structures. *)
Prod(s) == FoldLeft(LAMBDA a, x : a*x, 1, s)
Decl == [i \in DOMAIN E.f |-> <<ToString(i), E.f[i][1], Prod(E.f[i][2])>>]
ValueOf(S, i) == LET r == Raw(E.data, 0, S, S[i][1])
                     w == IF E.en = "little" THEN r ELSE Swap(r, TSize(S[i][2])) IN
                 IF S[i][2] = "char" /\ E.cm = "str" /\ E.f[i][2] # <<1>> THEN CStr(r) ELSE w
Clauses ==
    CASE E.op = "ask" -> {c \in {"answer", "left", "outside", "bundle"} :
                            CASE c = "answer" -> ~Answer [] c = "left" -> E.left # 0 [] c = "outside" -> ~E.outside [] OTHER -> ~E.kept}
      [] E.op = "struct" -> IF E.err # "" THEN {"raises"} ELSE
                            {c \in {"size", "fields", "shape"} : CASE c = "size" -> E.size # Size(Decl) [] c = "fields" -> E.size = Size(Decl) /\ \E i \in DOMAIN E.f : E.vals[i] # ValueOf(Decl, i) [] OTHER -> ~E.back}
      [] E.op = "mib" -> IF E.err # "" THEN {"raises"} ELSE
                         {c \in {"entries", "names"} : IF c = "names" THEN ~E.named
                            ELSE {<<x[1], x[2], x[3]>> : x \in ToSet(E.got)} # {<<E.entries[i].idx, E.entries[i].v, E.entries[i].typ>> : i \in {j \in DOMAIN E.entries : Readable(E.entries[j])}}}
      [] OTHER -> {}
Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)
Init == l = 1 /\ dead = FALSE /\ fs = << >>
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF E.op = "begin" THEN dead' = FALSE /\ fs' = << >>
       ELSE IF dead THEN UNCHANGED <<dead, fs>>
       ELSE /\ fs' = IF E.op = "put" THEN [k \in DOMAIN fs \cup {Where} |-> IF k = Where THEN l ELSE fs[k]] ELSE fs
            /\ LET cs == Clauses IN dead' = (cs # {}) /\ Report(cs)
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
