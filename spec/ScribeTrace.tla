---------------------------- MODULE ScribeTrace ----------------------------
EXTENDS Scribe, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
E == Trace[l]
P == E.p
----------------------------------------------------------------------------
(* DRX.  E.given: samples in quarters, E.got: as read *)
DrxClauses == IF ~GoodDrx(P) THEN {c \in {"bad-frame-written", "wrong-error"} : CASE c = "bad-frame-written" -> E.wrote > 0 [] c = "wrong-error" -> E.exc # "ValueError" \/ E.valid}
    ELSE IF E.exc # "" THEN {"raises-" \o E.exc}
    ELSE {c \in {"size", "id", "decimation", "offset", "timetag", "flags", "samples", "valid", "again"} :
      CASE c = "size" -> E.wrote # 4128
        [] c = "id" -> E.id # <<P.beam, P.tune, P.pol>>
        [] c = "decimation" -> E.dec # P.dec
        [] c = "offset" -> E.toff # P.toff
        [] c = "timetag" -> E.tt # P.tt
        [] c = "flags" -> E.flags # P.flags
        [] c = "samples" -> \E i \in 1..Len(E.given) : E.got[i] # (IF P.kind = "ci8" THEN E.given[i] \div 4 ELSE FourBits(E.given[i]))
        [] c = "valid" -> ~E.valid
        [] c = "again" -> ~E.again}
(* VDIF *)
VdifClauses == IF E.exc # "" THEN {"raises-" \o E.exc}
    ELSE {c \in {"size", "station", "half-year", "second", "frame", "form", "samples", "time", "rate"} :
      CASE c = "size" -> E.wrote # 32 + VBytes(P.n, P.cplx, P.bits) \/ E.flen*8 # E.wrote
        [] c = "station" -> E.station # P.stand \/ E.thread # 0
        [] c = "half-year" -> E.epoch # HalfYear(P.day)
        [] c = "second" -> E.seconds # VSeconds(P.day, P.sec)
        [] c = "frame" -> E.frame # P.k
        [] c = "form" -> E.bits # P.bits \/ E.cplx # P.cplx \/ E.nchan # 1 \/ E.legacy \/ E.invalid
        [] c = "samples" -> Len(E.got) # Len(E.given) \/ \E i \in 1..Len(E.given) : E.got[i] # Level(E.given[i], P.bits)
        [] c = "time" -> E.time[1] # P.day \/ E.time[2] # P.sec \/ Abs(E.time[3] - P.k*(1000000 \div P.frate)) > 1
        [] c = "rate" -> E.rate # P.n*P.frate}
(* SDFITS: a time is a number of milliseconds after the start *)
SdClauses == IF E.exc # "" THEN {"raises-" \o E.exc}
    ELSE LET st == Stokes({P.pols[i] : i \in 1..Len(P.pols)}) want == Rows(E.adds, st, P.nchan) got == E.rows IN
      {c \in {"row-count", "order", "time", "beam", "exposure", "data", "axes", "notes"} :
      CASE c = "row-count" -> Len(got) # Len(want)
        [] c = "order" -> Len(got) = Len(want) /\ \E i \in 1..Len(want) : got[i].scan # want[i].scan
        [] c = "time" -> Len(got) = Len(want) /\ \E i \in 1..Len(want) : Abs(got[i].t - want[i].t) > 1 \/ ~got[i].inday
        [] c = "beam" -> Len(got) = Len(want) /\ \E i \in 1..Len(want) : got[i].beam # want[i].beam
        [] c = "exposure" -> Len(got) = Len(want) /\ \E i \in 1..Len(want) : got[i].exp # want[i].exp
        [] c = "data" -> Len(got) = Len(want) /\ \E i \in 1..Len(want) : got[i].data # want[i].data
        [] c = "axes" -> E.stokes0 # st[1] \/ E.step # (IF st[1] < 0 THEN -1 ELSE 1) \/ E.freq # <<40000000, 1, 25000>> \/ E.dims # <<P.nchan, Len(st)>>
        [] c = "notes" -> E.notes # P.notes \/ E.keys # P.keys}
(* the test signal: E.frames [beam, tune, pol, dec, dt (ticks since the first frame), tone], E.t0 the first time tag less the start, in ticks *)
StreamClauses == IF E.exc # "" THEN {"raises-" \o E.exc}
    ELSE LET want == Stream(P.beams, P.ntune, P.nframes) d == Decimation(P.filter) IN
      {c \in {"frame-count", "ids", "decimation", "times", "start", "tone"} :
      CASE c = "frame-count" -> Len(E.frames) # Len(want) \/ E.rest # 0
        [] c = "ids" -> Len(E.frames) = Len(want) /\ \E i \in 1..Len(want) : E.frames[i].beam # want[i].beam \/ E.frames[i].tune # want[i].tune \/ E.frames[i].pol # want[i].pol
        [] c = "decimation" -> \E i \in 1..Len(E.frames) : E.frames[i].dec # d
        [] c = "times" -> Len(E.frames) = Len(want) /\ \E i \in 1..Len(want) : E.frames[i].dt # want[i].n*4096*d
        [] c = "start" -> Abs(E.t0) > 128
        [] c = "tone" -> \E i \in 1..Len(E.frames) : E.frames[i].tone \notin Tone(E.frames[i].tune, E.frames[i].pol)}
Clauses == CASE E.op = "stream" -> StreamClauses [] E.op = "drx" -> DrxClauses [] E.op = "vdif" -> VdifClauses [] E.op = "sd" -> SdClauses [] OTHER -> {}
Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(Clauses)
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
