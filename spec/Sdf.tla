-------------------------------- MODULE Sdf --------------------------------
(* Session definition files (lsl/common/sdf.py): a project of sessions, each  *)
(* a list of observations; the rules that make a session acceptable; what a   *)
(* session definition file says (a reader that consumes it line by line) and  *)
(* what a session is written as.                                              *)
(*                                                                            *)
(* Lengths are in ms, angles in 10^-6 hours or degrees, tunings are tuning    *)
(* words, gains are in 10^-4.  "" stands for a text that was not given.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Day == 86400000
MJD0 == 60480
NStand == 256
MaxSteps == 1024
Arrays == {"fee1", "fee2", "flt", "at1", "at2", "at3"}
Subs == {"ASP", "NDP", "DR1", "DR2", "DR3", "DR4", "DR5", "SHL", "MCS"}
DrxModes == {"TRK_RADEC", "TRK_SOL", "TRK_JOV", "TRK_LUN", "STEPPED"}
TbModes == {"TBT", "TBS"}
(* a per-stand setting: the value almost all of the stands have, and the exceptions *)
Arr(b) == [b |-> b, ov |-> {}]
NoArr == [a \in Arrays |-> Arr(-1)]
NoMib == [x \in Subs |-> -1]
Header == [piid |-> 0, piname |-> "", pid |-> "", ptitle |-> "", prem |-> "", prempo |-> "", sid |-> 0, stitle |-> "",
           srem |-> "", drm |-> "", srempo |-> "", cra |-> 0, beam |-> -1, spc |-> <<0, 0, "">>, mrp |-> NoMib, mup |-> NoMib,
           sch |-> FALSE, exe |-> FALSE, smib |-> FALSE, des |-> FALSE]
Blank == [mode |-> "", title |-> "", target |-> "", rem |-> "", mjd |-> 0, mpm |-> 0, dur |-> 0, f1 |-> 0, f2 |-> 0, bw |-> 0,
          ra |-> 0, dec |-> 0, hdr |-> FALSE, gain |-> -1, bdm |-> << >>, samples |-> 0, radec |-> TRUE, steps |-> << >>, arr |-> NoArr]
Step0(i) == [id |-> i, c1 |-> 0, c2 |-> 0, dur |-> 0, f1 |-> 0, f2 |-> 0, b |-> "SIMPLE", dl |-> {}, gn |-> {}]

----------------------------------------------------------------------------
(* How an observation is understood, however its values were given.          *)
Half(us) == IF us > 500 THEN 1 ELSE 0
TbtDur(n) == ((n \div 196000) + 1)*150 + 5000      \* for whole ms of samples
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
StepsDur(s) == FoldLeft(LAMBDA a, x : a + x.dur, 0, s)
IsSpec(o) == \E i \in DOMAIN o.steps : o.steps[i].b \in {"SPEC_DELAYS_GAINS", "BADLEN"}
Settle(o) == [o EXCEPT !.dur = CASE o.mode = "TBT" -> TbtDur(o.samples) [] o.mode = "STEPPED" -> StepsDur(o.steps) [] OTHER -> o.dur,
                       !.bdm = IF IsSpec(o) THEN << >> ELSE @]
Begin(o) == (o.mjd - MJD0)*Day + o.mpm
End(o) == Begin(o) + o.dur
At(ms) == [mjd |-> MJD0 + (ms \div Day), mpm |-> ms % Day]

----------------------------------------------------------------------------
(* Which sessions the station takes.                                          *)
DrxTuning(w) == 222417950 <= w /\ w <= 1928352663
TbsTuning(w) == 65739295 <= w /\ w <= 2037918156
Chans == {2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192}
Wins == {384, 768, 1536, 3072, 6144, 12288, 24576, 49152, 98304, 196608}
InArr(a, S) == a.b \in S /\ \A e \in a.ov : e[2] \in S
GoodArr(a) == InArr(a["fee1"], -1..1) /\ InArr(a["fee2"], -1..1) /\ InArr(a["flt"], -1..7)
              /\ InArr(a["at1"], -1..15) /\ InArr(a["at2"], -1..15) /\ InArr(a["at3"], -1..31)
(* megabytes per ten seconds *)
Rate(o) == CASE o.mode = "TBT" -> 0
             [] o.mode = "TBS" -> 988
             [] o.bw \in 1..7 -> <<10, 20, 40, 81, 198, 395, 790>>[o.bw]
             [] OTHER -> 0
Spectro(h) == h.spc[1] > 0 \/ h.spc[2] > 0 \/ h.spc[3] # ""
MB(o, h) == IF o.mode \in DrxModes /\ h.spc[1] > 0 /\ h.spc[2] > 0 THEN 0 ELSE ((o.dur \div 1000)*Rate(o)) \div 10
MaxMB == 10995116
GoodStep(t) == /\ t.b \in {"SIMPLE", "HIGH_DR", "SPEC_DELAYS_GAINS"}
               /\ t.dur >= 5 /\ DrxTuning(t.f1) /\ (t.f2 = 0 \/ DrxTuning(t.f2))
(* up: the target is above the horizon throughout *)
GoodObs(o, h, up) ==
    /\ GoodArr(o.arr) /\ MB(o, h) < MaxMB
    /\ CASE o.mode = "TBT" -> o.samples <= 392000000
         [] o.mode = "TBS" -> o.dur >= 1 /\ TbsTuning(o.f1) /\ o.bw = 8
         [] o.mode = "STEPPED" -> o.bw \in 1..7 /\ o.steps # << >> /\ Len(o.steps) <= MaxSteps /\ up /\ \A i \in DOMAIN o.steps : GoodStep(o.steps[i])
         [] OTHER -> o.dur >= 1 /\ DrxTuning(o.f1) /\ (o.f2 = 0 \/ DrxTuning(o.f2)) /\ o.bw \in 1..7 /\ up
Overlap(a, b) == Begin(a) < End(b) /\ Begin(b) < End(a)
GoodSession(s) ==
    /\ s.h.sid \in 1..9999 /\ s.h.cra \in 0..65535 /\ s.h.beam \in {-1} \cup 1..4
    /\ \A x \in Subs : s.h.mrp[x] >= -1 /\ s.h.mup[x] >= -1
    /\ Spectro(s.h) => /\ s.h.spc[1] \in Chans /\ s.h.spc[2] \in Wins /\ s.h.spc[3] \in {"", "{Stokes=XXYY}", "{Stokes=IQUV}", "{Stokes=IV}"}
                       /\ \A i \in DOMAIN s.obs : s.obs[i].mode \notin TbModes
    /\ \A i \in DOMAIN s.obs : GoodObs(s.obs[i], s.h, s.up[i])
    /\ ~(\E i, j \in DOMAIN s.obs : s.obs[i].mode \in TbModes /\ s.obs[j].mode \in DrxModes)
    /\ \A i, j \in DOMAIN s.obs : i # j => ~Overlap(s.obs[i], s.obs[j])
    /\ Sum([i \in DOMAIN s.obs |-> MB(s.obs[i], s.h)]) < MaxMB
InOrder(s) == SortSeq(s.obs, LAMBDA a, b : Begin(a) < Begin(b))

----------------------------------------------------------------------------
(* What is in the file: the text fields, and the fields a mode has.          *)
None == "None provided"
Txt(x) == IF x = "" THEN None ELSE x
Rempi(c, u) == IF u = "" THEN Txt(c) ELSE IF c = "" THEN "ucfuser:" \o u ELSE "ucfuser:" \o u \o ";;" \o c
Say(drm, po) == "Requested data return method is " \o drm \o (IF po = "" THEN "" ELSE ";;" \o po)
Kept(mode) == {"mode", "title", "target", "rem", "mjd", "mpm", "bdm", "arr"} \cup
    (CASE mode = "TBT" -> {"samples", "dur"}
       [] mode = "TBS" -> {"dur", "f1", "bw"}
       [] mode = "TRK_RADEC" -> {"dur", "f1", "f2", "bw", "ra", "dec", "hdr", "gain"}
       [] mode = "STEPPED" -> {"dur", "bw", "steps", "radec", "gain"}
       [] OTHER -> {"dur", "f1", "f2", "bw", "hdr", "gain"})
(* a setting given stand by stand for all of the stands is the setting of most of them with exceptions *)
Canon(a) ==
    LET big == {v \in {e[2] : e \in a.ov} : Cardinality({e \in a.ov : e[2] = v}) > NStand \div 2} IN
    IF big = {} THEN [a EXCEPT !.ov = {e \in a.ov : e[2] # a.b}]
    ELSE LET v == CHOOSE v \in big : TRUE
             missing == {i \in 1..NStand : ~\E e \in a.ov : e[1] = i} IN
         [b |-> v, ov |-> {e \in a.ov : e[2] # v} \cup {<<i, a.b>> : i \in missing}]
SameArr(a, b) == \A x \in Arrays : Canon(a[x]) = Canon(b[x])
Same(o, p) == /\ o.mode = p.mode
              /\ \A f \in Kept(o.mode) \ {"arr"} : o[f] = p[f]
              /\ SameArr(o.arr, p.arr)

(* The reader.  r.h: the header so far; r.done: finished observations; r.cur: the observation being read. *)
Start == [h |-> Header, done |-> << >>, cur |-> Blank, open |-> FALSE]
Close(r) == IF r.open THEN Append(r.done, Settle(r.cur)) ELSE r.done
SetArr(r, a, i, v) == [r EXCEPT !.cur.arr[a] = IF i = 0 THEN Arr(v) ELSE [@ EXCEPT !.ov = {e \in @ : e[1] # i} \cup {<<i, v>>}]]
Last1(s) == s[Len(s)]
StepFor(r, i) == IF r.cur.steps # << >> /\ Last1(r.cur.steps).id = i THEN r
                 ELSE [r EXCEPT !.cur.steps = Append(@, Step0(i))]
OnStep(r, i, F(_)) == LET q == StepFor(r, i) IN [q EXCEPT !.cur.steps[Len(q.cur.steps)] = F(@)]
Head1 == [PI_ID |-> "piid", PI_NAME |-> "piname", PROJECT_ID |-> "pid", PROJECT_TITLE |-> "ptitle", PROJECT_REMPI |-> "prem",
          PROJECT_REMPO |-> "prempo", SESSION_ID |-> "sid", SESSION_TITLE |-> "stitle", SESSION_REMPI |-> "srem", SESSION_CRA |-> "cra",
          SESSION_DRX_BEAM |-> "beam", SESSION_SPC |-> "spc"]
Flags == [SESSION_LOG_SCH |-> "sch", SESSION_LOG_EXE |-> "exe", SESSION_INC_SMIB |-> "smib", SESSION_INC_DES |-> "des"]
Plain == [OBS_TITLE |-> "title", OBS_TARGET |-> "target", OBS_REMPI |-> "rem", OBS_START_MJD |-> "mjd", OBS_START_MPM |-> "mpm",
          OBS_DUR |-> "dur", OBS_MODE |-> "mode", OBS_BDM |-> "bdm", OBS_RA |-> "ra", OBS_DEC |-> "dec", OBS_FREQ1 |-> "f1",
          OBS_FREQ2 |-> "f2", OBS_BW |-> "bw", OBS_TBT_SAMPLES |-> "samples", OBS_DRX_GAIN |-> "gain"]
StepKey == [OBS_STP_C1 |-> "c1", OBS_STP_C2 |-> "c2", OBS_STP_T |-> "dur", OBS_STP_FREQ1 |-> "f1", OBS_STP_FREQ2 |-> "f2", OBS_STP_B |-> "b"]
ArrKey == [OBS_ASP_FLT |-> "flt", OBS_ASP_AT1 |-> "at1", OBS_ASP_AT2 |-> "at2", OBS_ASP_AT3 |-> "at3"]
Read(r, x) ==
    CASE x.k \in DOMAIN Head1 -> [r EXCEPT !.h[Head1[x.k]] = x.v]
      [] x.k \in DOMAIN Flags -> [r EXCEPT !.h[Flags[x.k]] = (x.v # 0)]
      [] x.k = "SESSION_REMPO" -> [r EXCEPT !.h.drm = x.v[1], !.h.srempo = x.v[2]]
      [] x.k = "SESSION_MRP" -> [r EXCEPT !.h.mrp[x.s] = x.v]
      [] x.k = "SESSION_MUP" -> [r EXCEPT !.h.mup[x.s] = x.v]
      [] x.k = "OBS_ID" -> [r EXCEPT !.done = Close(r), !.cur = Blank, !.open = TRUE]
      [] x.k \in DOMAIN Plain -> [r EXCEPT !.cur[Plain[x.k]] = x.v]
      [] x.k = "OBS_B" -> [r EXCEPT !.cur.hdr = (x.v # "SIMPLE")]
      [] x.k = "OBS_STP_RADEC" -> [r EXCEPT !.cur.radec = (x.v # 0)]
      [] x.k \in DOMAIN StepKey -> OnStep(r, x.i[1], LAMBDA t : [t EXCEPT ![StepKey[x.k]] = x.v])
      [] x.k = "OBS_BEAM_DELAY" -> OnStep(r, x.i[1], LAMBDA t : [t EXCEPT !.dl = @ \cup {<<x.i[2], x.v>>}])
      [] x.k = "OBS_BEAM_GAIN" -> OnStep(r, x.i[1], LAMBDA t : [t EXCEPT !.gn = @ \cup {<<x.i[2], x.i[3], x.i[4], x.v>>}])
      [] x.k = "OBS_FEE" -> SetArr(r, IF x.i[2] = 1 THEN "fee1" ELSE "fee2", x.i[1], x.v)
      [] x.k \in DOMAIN ArrKey -> SetArr(r, ArrKey[x.k], x.i[1], x.v)
      [] OTHER -> r
Means(lines) == LET r == FoldLeft(Read, Start, lines) IN [h |-> r.h, obs |-> Close(r)]

(* What one session is written as.                                           *)
L(k, v) == <<[k |-> k, v |-> v, i |-> << >>, s |-> ""]>>
LI(k, i, v) == <<[k |-> k, v |-> v, i |-> i, s |-> ""]>>
LS(k, s, v) == <<[k |-> k, v |-> v, i |-> << >>, s |-> s]>>
If(c, x) == IF c THEN x ELSE << >>
RECURSIVE Cat(_)
Cat(s) == IF s = << >> THEN << >> ELSE Head(s) \o Cat(Tail(s))
EachSub(k, m) == Cat([j \in 1..Cardinality(Subs) |-> LET x == SetToSeq(Subs)[j] IN If(m[x] # -1, LS(k, x, m[x]))])
Ov(S) == SetToSortSeq(S, LAMBDA a, b : a[1] < b[1])
WriteArr(k, p, a) == LET id(i) == IF p = 0 THEN <<i>> ELSE <<i, p>> IN
    IF a.ov = {} THEN If(a.b # -1, LI(k, id(0), a.b))
    ELSE If(a.b # -1, LI(k, id(0), a.b)) \o Cat([j \in 1..Cardinality(a.ov) |-> LI(k, id(Ov(a.ov)[j][1]), Ov(a.ov)[j][2])])
WriteStep(t, j) == LI("OBS_STP_C1", <<j>>, t.c1) \o LI("OBS_STP_C2", <<j>>, t.c2) \o LI("OBS_STP_T", <<j>>, t.dur) \o LI("OBS_STP_FREQ1", <<j>>, t.f1)
    \o LI("OBS_STP_FREQ2", <<j>>, t.f2) \o LI("OBS_STP_B", <<j>>, t.b)
    \o Cat([n \in 1..Cardinality(t.dl) |-> LET e == Ov(t.dl)[n] IN LI("OBS_BEAM_DELAY", <<j, e[1]>>, e[2])])
    \o Cat([n \in 1..Cardinality(t.gn) |-> LET e == SetToSeq(t.gn)[n] IN LI("OBS_BEAM_GAIN", <<j, e[1], e[2], e[3]>>, e[4])])
WriteObs(o, n) ==
    L("OBS_ID", n) \o L("OBS_TITLE", Txt(o.title)) \o L("OBS_TARGET", Txt(o.target)) \o L("OBS_REMPI", Txt(o.rem))
    \o L("OBS_START_MJD", o.mjd) \o L("OBS_START_MPM", o.mpm) \o L("OBS_DUR", o.dur) \o L("OBS_MODE", o.mode)
    \o If(o.bdm # << >>, L("OBS_BDM", o.bdm))
    \o If(o.mode = "TRK_RADEC", L("OBS_RA", o.ra) \o L("OBS_DEC", o.dec))
    \o If(o.mode \in DrxModes \ {"STEPPED"}, L("OBS_B", IF o.hdr THEN "HIGH_DR" ELSE "SIMPLE") \o L("OBS_FREQ2", o.f2))
    \o If(o.mode \notin {"TBT", "STEPPED"}, L("OBS_FREQ1", o.f1)) \o If(o.mode # "TBT", L("OBS_BW", o.bw))
    \o If(o.mode = "STEPPED", L("OBS_STP_RADEC", IF o.radec THEN 1 ELSE 0) \o Cat([j \in DOMAIN o.steps |-> WriteStep(o.steps[j], j)]))
    \o WriteArr("OBS_FEE", 1, o.arr["fee1"]) \o WriteArr("OBS_FEE", 2, o.arr["fee2"]) \o WriteArr("OBS_ASP_FLT", 0, o.arr["flt"])
    \o WriteArr("OBS_ASP_AT1", 0, o.arr["at1"]) \o WriteArr("OBS_ASP_AT2", 0, o.arr["at2"]) \o WriteArr("OBS_ASP_AT3", 0, o.arr["at3"])
    \o If(o.mode = "TBT", L("OBS_TBT_SAMPLES", o.samples)) \o If(o.mode # "TBT" /\ o.gain # -1, L("OBS_DRX_GAIN", o.gain))
WriteHeader(h, u) ==
    L("PI_ID", h.piid) \o L("PI_NAME", h.piname) \o L("PROJECT_ID", h.pid) \o L("PROJECT_TITLE", h.ptitle) \o L("PROJECT_REMPI", Txt(h.prem))
    \o L("SESSION_ID", h.sid) \o L("SESSION_TITLE", Txt(h.stitle)) \o L("SESSION_REMPI", Rempi(h.srem, u)) \o L("SESSION_REMPO", <<h.drm, h.srempo>>)
    \o If(h.cra # 0, L("SESSION_CRA", h.cra)) \o If(h.beam # -1, L("SESSION_DRX_BEAM", h.beam)) \o If(h.spc[1] # 0 /\ h.spc[2] # 0, L("SESSION_SPC", h.spc))
    \o EachSub("SESSION_MRP", h.mrp) \o EachSub("SESSION_MUP", h.mup)
    \o If(h.sch, L("SESSION_LOG_SCH", 1)) \o If(h.exe, L("SESSION_LOG_EXE", 1)) \o If(h.smib, L("SESSION_INC_SMIB", 1)) \o If(h.des, L("SESSION_INC_DES", 1))
Written(s) == WriteHeader(s.h, s.ucf) \o Cat([i \in DOMAIN s.obs |-> WriteObs(InOrder(s)[i], i)])
(* the header as it is read back *)
AsRead(s) == [s.h EXCEPT !.prem = Txt(@), !.stitle = Txt(@), !.srem = Rempi(@, s.ucf)]
TxtObs(o) == [o EXCEPT !.title = Txt(@), !.target = Txt(@), !.rem = Txt(@)]
Holds(m, s) == /\ m.h = AsRead(s)
               /\ Len(m.obs) = Len(s.obs)
               /\ \A i \in DOMAIN s.obs : Same(TxtObs(InOrder(s)[i]), m.obs[i])
=============================================================================
