-------------------------------- MODULE Idf --------------------------------
(* Interferometer definition files (lsl/common/idf.py): runs of scans, each   *)
(* with alternate phase centers; the rules that make a run acceptable; what   *)
(* an interferometer definition file says; and the session definition files  *)
(* that a run is turned into, one per station.                                *)
(*                                                                            *)
(* Units as in Sdf; proper motions are in tenths of a mas/yr, separations in  *)
(* thousandths of a degree.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
S == INSTANCE Sdf
Modes == {"TRK_RADEC", "TRK_SOL", "TRK_JOV"}
Intents == {"fluxcal", "phasecal", "target", "dummy"}
MaxAlt == 10
Header == [piid |-> 0, piname |-> "", pid |-> "", ptitle |-> "", prem |-> "", prempo |-> "", rid |-> 0, rtitle |-> "",
           stations |-> << >>, chan |-> 512, intt |-> 1000, basis |-> "linear", rrem |-> "", drm |-> "", rrempo |-> "", ucf |-> ""]
Still == <<0, 0>>
Blank == [mode |-> "", target |-> "", intent |-> "", rem |-> "", mjd |-> 0, mpm |-> 0, dur |-> 0, f1 |-> 0, f2 |-> 0, bw |-> 0,
          ra |-> 0, dec |-> 0, pm |-> Still, gain |-> -1, flt |-> -1, alts |-> << >>]
Alt0(i) == [id |-> i, target |-> "", intent |-> "", ra |-> 0, dec |-> 0, pm |-> Still]

----------------------------------------------------------------------------
(* Which runs the stations take.  up: the target and the phase centers are   *)
(* above the horizon of every station throughout; sep: how far the phase     *)
(* centers are from the target.                                              *)
Top(a, b) == IF a > b THEN a ELSE b
Reach == 16215510                                 \* half of the beam: 74 MHz / f degrees
Within(d, f) == d*(f \div 100000) <= Reach
GoodScan(o, up, sep) ==
    /\ o.dur >= 1 /\ S!DrxTuning(o.f1) /\ (o.f2 = 0 \/ S!DrxTuning(o.f2)) /\ o.bw \in 1..7 /\ up
    /\ Len(o.alts) <= MaxAlt
    /\ \A i \in DOMAIN o.alts : Within(sep[i], Top(o.f1, o.f2))
    /\ S!MB(o, [spc |-> <<0, 0, "">>]) < S!MaxMB
GoodRun(s) ==
    /\ s.h.rid \in 1..9999
    /\ \A i, j \in DOMAIN s.h.stations : i # j => s.h.stations[i] # s.h.stations[j]
    /\ \A i \in DOMAIN s.obs : GoodScan(s.obs[i], s.up[i], s.sep[i])
    /\ \A i, j \in DOMAIN s.obs : s.obs[i].bw = s.obs[j].bw
    /\ \A i, j \in DOMAIN s.obs : i # j => ~S!Overlap(s.obs[i], s.obs[j])
    /\ S!Sum([i \in DOMAIN s.obs |-> S!MB(s.obs[i], [spc |-> <<0, 0, "">>])]) < S!MaxMB
InOrder(s) == SortSeq(s.obs, LAMBDA a, b : S!Begin(a) < S!Begin(b))

----------------------------------------------------------------------------
(* What is in the file.                                                       *)
Kept(mode) == DOMAIN Blank \ (IF mode = "TRK_RADEC" THEN {} ELSE {"ra", "dec", "pm"})
Same(o, p) == o.mode = p.mode /\ \A f \in Kept(o.mode) : o[f] = p[f]
Start == [h |-> Header, done |-> << >>, cur |-> Blank, open |-> FALSE]
Close(r) == IF r.open THEN Append(r.done, r.cur) ELSE r.done
AltFor(r, i) == IF r.cur.alts # << >> /\ r.cur.alts[Len(r.cur.alts)].id = i THEN r ELSE [r EXCEPT !.cur.alts = Append(@, Alt0(i))]
OnAlt(r, i, F(_)) == LET q == AltFor(r, i) IN [q EXCEPT !.cur.alts[Len(q.cur.alts)] = F(@)]
Head1 == [PI_ID |-> "piid", PI_NAME |-> "piname", PROJECT_ID |-> "pid", PROJECT_TITLE |-> "ptitle", PROJECT_REMPI |-> "prem",
          RUN_ID |-> "rid", RUN_TITLE |-> "rtitle", RUN_STATIONS |-> "stations", RUN_CHANNELS |-> "chan", RUN_INTTIME |-> "intt",
          RUN_BASIS |-> "basis"]
Plain == [SCAN_TARGET |-> "target", SCAN_INTENT |-> "intent", SCAN_REMPI |-> "rem", SCAN_START_MJD |-> "mjd", SCAN_START_MPM |-> "mpm",
          SCAN_DUR |-> "dur", SCAN_MODE |-> "mode", SCAN_RA |-> "ra", SCAN_DEC |-> "dec", SCAN_FREQ1 |-> "f1", SCAN_FREQ2 |-> "f2",
          SCAN_BW |-> "bw", SCAN_ASP_FLT |-> "flt", SCAN_DRX_GAIN |-> "gain"]
AltKey == [SCAN_ALT_TARGET |-> "target", SCAN_ALT_INTENT |-> "intent", SCAN_ALT_RA |-> "ra", SCAN_ALT_DEC |-> "dec"]
Read(r, x) ==
    CASE x.k \in DOMAIN Head1 -> [r EXCEPT !.h[Head1[x.k]] = x.v]
      [] x.k = "RUN_REMPI" -> [r EXCEPT !.h.ucf = x.v[1], !.h.rrem = x.v[2]]
      [] x.k = "RUN_REMPO" -> [r EXCEPT !.h.drm = x.v[1], !.h.rrempo = x.v[2]]
      [] x.k = "SCAN_ID" -> [r EXCEPT !.done = Close(r), !.cur = Blank, !.open = TRUE]
      [] x.k \in DOMAIN Plain -> [r EXCEPT !.cur[Plain[x.k]] = x.v]
      [] x.k = "SCAN_PM_RA" -> [r EXCEPT !.cur.pm[1] = x.v]
      [] x.k = "SCAN_PM_DEC" -> [r EXCEPT !.cur.pm[2] = x.v]
      [] x.k \in DOMAIN AltKey -> OnAlt(r, x.i[1], LAMBDA t : [t EXCEPT ![AltKey[x.k]] = x.v])
      [] x.k = "SCAN_ALT_PM_RA" -> OnAlt(r, x.i[1], LAMBDA t : [t EXCEPT !.pm[1] = x.v])
      [] x.k = "SCAN_ALT_PM_DEC" -> OnAlt(r, x.i[1], LAMBDA t : [t EXCEPT !.pm[2] = x.v])
      [] OTHER -> r
Means(lines) == LET r == FoldLeft(Read, Start, lines) IN [h |-> r.h, obs |-> Close(r)]

L(k, v) == <<[k |-> k, v |-> v, i |-> << >>]>>
LI(k, i, v) == <<[k |-> k, v |-> v, i |-> <<i>>]>>
If(c, x) == IF c THEN x ELSE << >>
WriteAlt(t, j) == LI("SCAN_ALT_TARGET", j, t.target) \o LI("SCAN_ALT_INTENT", j, t.intent) \o LI("SCAN_ALT_RA", j, t.ra) \o LI("SCAN_ALT_DEC", j, t.dec)
    \o If(t.pm # Still, LI("SCAN_ALT_PM_RA", j, t.pm[1]) \o LI("SCAN_ALT_PM_DEC", j, t.pm[2]))
WriteScan(o, n) ==
    L("SCAN_ID", n) \o L("SCAN_TARGET", o.target) \o L("SCAN_INTENT", o.intent) \o L("SCAN_REMPI", S!Txt(o.rem))
    \o L("SCAN_START_MJD", o.mjd) \o L("SCAN_START_MPM", o.mpm) \o L("SCAN_DUR", o.dur) \o L("SCAN_MODE", o.mode)
    \o If(o.mode = "TRK_RADEC", L("SCAN_RA", o.ra) \o L("SCAN_DEC", o.dec) \o If(o.pm # Still, L("SCAN_PM_RA", o.pm[1]) \o L("SCAN_PM_DEC", o.pm[2])))
    \o L("SCAN_FREQ1", o.f1) \o L("SCAN_FREQ2", o.f2) \o L("SCAN_BW", o.bw)
    \o If(o.alts # << >>, L("SCAN_ALT_N", Len(o.alts))) \o S!Cat([j \in DOMAIN o.alts |-> WriteAlt(o.alts[j], j)])
    \o If(o.flt # -1, L("SCAN_ASP_FLT", o.flt)) \o If(o.gain # -1, L("SCAN_DRX_GAIN", o.gain))
WriteHeader(h) ==
    L("PI_ID", h.piid) \o L("PI_NAME", h.piname) \o L("PROJECT_ID", h.pid) \o L("PROJECT_TITLE", h.ptitle) \o L("PROJECT_REMPI", S!Txt(h.prem))
    \o L("RUN_ID", h.rid) \o L("RUN_TITLE", S!Txt(h.rtitle)) \o L("RUN_STATIONS", h.stations) \o L("RUN_CHANNELS", h.chan) \o L("RUN_INTTIME", h.intt)
    \o L("RUN_BASIS", h.basis) \o L("RUN_REMPI", <<h.ucf, IF h.ucf = "" THEN S!Txt(h.rrem) ELSE h.rrem>>) \o L("RUN_REMPO", <<h.drm, h.rrempo>>)
Written(s) == WriteHeader(s.h) \o S!Cat([i \in DOMAIN s.obs |-> WriteScan(InOrder(s)[i], i)])
AsRead(s) == [s.h EXCEPT !.prem = S!Txt(@), !.rtitle = S!Txt(@), !.rrem = IF s.h.ucf = "" THEN S!Txt(@) ELSE @]
TxtScan(o) == [o EXCEPT !.rem = S!Txt(@)]
Holds(m, s) == /\ m.h = AsRead(s)
               /\ Len(m.obs) = Len(s.obs)
               /\ \A i \in DOMAIN s.obs : Same(TxtScan(InOrder(s)[i]), m.obs[i])

----------------------------------------------------------------------------
(* The sessions of a run: one per station, each the scans in their order.     *)
(* The coordinates of a target that moves are those at the time of the scan: *)
(* the displacement from J2000 is given as the rate that it amounts to.      *)
AsObs(o) == [mode |-> o.mode, title |-> o.intent, target |-> o.target, mjd |-> o.mjd, mpm |-> o.mpm, dur |-> o.dur, f1 |-> o.f1, f2 |-> o.f2,
             bw |-> o.bw, ra |-> IF o.mode = "TRK_RADEC" THEN o.ra ELSE 0, dec |-> IF o.mode = "TRK_RADEC" THEN o.dec ELSE 0,
             moved |-> IF o.mode = "TRK_RADEC" THEN o.pm ELSE Still, gain |-> o.gain,
             alts |-> [i \in DOMAIN o.alts |-> [target |-> o.alts[i].target, intent |-> o.alts[i].intent, ra |-> o.alts[i].ra, dec |-> o.alts[i].dec, moved |-> o.alts[i].pm]]]
SessionOf(s, i, first) ==
    [station |-> s.h.stations[i], sid |-> first + i - 1, drm |-> "UCF", smib |-> TRUE, beam |-> 1, pid |-> s.h.pid, piid |-> s.h.piid, piname |-> s.h.piname,
     chan |-> s.h.chan, intt |-> s.h.intt, basis |-> s.h.basis, user |-> s.h.ucf, back |-> s.h.drm,
     obs |-> [j \in DOMAIN s.obs |-> AsObs(InOrder(s)[j])]]
Sessions(s, first) == [i \in DOMAIN s.h.stations |-> SessionOf(s, i, first)]
=============================================================================
