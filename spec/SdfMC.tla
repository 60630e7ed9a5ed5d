------------------------------- MODULE SdfMC -------------------------------
(* Sessions built one observation at a time, written, and read line by line. *)
EXTENDS Sdf, Randomization, Json, IOUtils, CSV
CONSTANTS MaxObs, MaxOps, Emit
VARIABLES ss, hist, ops, lines, r
vars == <<ss, hist, ops, lines, r>>
One(S) == IF Emit THEN RandomSubset(1, S) ELSE S
(* small: the values of the exhaustive search; big: those of the generated behaviours *)
Pick(small, big) == One(IF Emit THEN big ELSE small)
Rare(n) == IF Emit THEN RandomElement(1..n) = 1 ELSE TRUE
Texts == {"", "Cyg A", "a, b  c", "OBS_ID 4", "x[1] {y} ;; 'z'", "None", "SESSION_CRA 3"}
W38 == 832697741
Tunings == {W38, 222417950, 1928352663, 222417949, 1928352664, 65739295, 65739294, 1643482384, 2037918157, 0}
Starts == {0, 1, 3600000, 3610000, 7199999, 43200000, 69000000, 72000000, 75600999, 86399999, 86400000, 90000000, 172800000, 259199600}
Durs == {1, 5, 999, 1000, 1001, 9999, 59999, 60000, 61000, 600000, 3599999, 3600000, 4500000}
NewArr(a) == [NoArr EXCEPT ![a] = Arr(0)]
Init == /\ ss = << >> /\ hist = << >> /\ ops = 0 /\ lines = << >> /\ r = Start
Do(ev) == hist' = (IF Emit THEN Append(hist, ev) ELSE hist) /\ ops' = ops + 1
Quiet == UNCHANGED <<lines, r>>
Sess(h, u) == [h |-> h, ucf |-> u, obs |-> << >>, up |-> << >>]
NewSession ==
    /\ Len(ss) < (IF Emit THEN 2 ELSE 1) /\ (Emit => ops < 2 /\ (ops = 0 \/ Rare(6)))
    /\ \E tx \in Pick({"t"}, Texts), tc \in Pick({""}, Texts), u \in Pick({"", "joe"}, {"", "", "joe", "joe/data-1/x"} \cup {""}), po \in Pick({""}, {"", "checked", "x;;y"}),
          beam \in Pick({2}, {-1, 1, 2, 3, 4} \cup (IF Rare(25) THEN {0, 5} ELSE {})), cra \in Pick({0}, {0, 1, 65535} \cup (IF Rare(25) THEN {65536} ELSE {})),
          chan \in Pick({0}, IF Rare(3) THEN {2, 1024, 8192} ELSE {0}), win \in Pick({0}, {384, 768, 196608} \cup (IF Rare(25) THEN {100} ELSE {})),
          tag \in Pick({""}, {"", "{Stokes=XXYY}", "{Stokes=IQUV}", "{Stokes=IV}"} \cup (IF Rare(25) THEN {"{Stokes=CRCI}"} ELSE {})),
          drm \in Pick({"DRSU"}, {"DRSU", "UCF", "USB Harddrives"}), sid \in Pick({1}, {1, 101, 9999} \cup (IF Rare(25) THEN {0, 10000} ELSE {})),
          sub \in Pick({"ASP"}, Subs), mr \in Pick({3}, {-1, -1, 0, 5}), mu \in Pick({-1}, {-1, 0, 7}),
          sch \in Pick({TRUE}, BOOLEAN), exe \in Pick({FALSE}, BOOLEAN), smib \in Pick({FALSE}, BOOLEAN), des \in Pick({FALSE}, BOOLEAN) :
         LET spc == IF chan = 0 THEN <<0, 0, "">> ELSE <<chan, win, tag>>
             h == [Header EXCEPT !.piid = 7, !.piname = "Doe, Jane", !.pid = "LT001", !.ptitle = "Project", !.prem = tc, !.sid = sid, !.stitle = tx, !.srem = tc,
                     !.drm = drm, !.srempo = po, !.cra = cra, !.beam = beam, !.spc = spc, !.mrp[sub] = mr, !.mup[sub] = mu, !.sch = sch, !.exe = exe, !.smib = smib, !.des = des] IN
         /\ ss' = Append(ss, Sess(h, u))
         /\ Do([op |-> "session", h |-> h, ucf |-> u])
    /\ Quiet
(* the sessions of one behaviour are either of the beams or of the transient buffers, mostly *)
ModeFor(s) == IF s.obs = << >> \/ Rare(15) THEN DrxModes \cup TbModes
              ELSE IF s.obs[1].mode \in TbModes THEN TbModes ELSE DrxModes
(* after what is there already, usually *)
StartFor(s) == IF s.obs = << >> \/ Rare(12) THEN Starts
               ELSE {End(s.obs[Len(s.obs)]) + d : d \in {0, 1, 5000}} \cup
                    {x \in {Begin(s.obs[1]) - d : d \in {1000, 5000, 600000, 3600000, 20000000}} : x >= 0}
Tune(w) == IF Emit /\ ~Rare(25) THEN {W38, 222417950, 1928352663, 1643482384} ELSE w
StepOf(c1, c2, d, w, b, x) == [id |-> 0, c1 |-> c1, c2 |-> c2, dur |-> d, f1 |-> w, f2 |-> IF x % 2 = 0 THEN 0 ELSE W38, b |-> b,
                      dl |-> IF b = "SPEC_DELAYS_GAINS" THEN {<<x + 1, 100 + x>>, <<512, 7>>} ELSE {},
                      gn |-> IF b = "SPEC_DELAYS_GAINS" THEN {<<x + 1, 1, 2, 30 + x>>, <<256, 2, 2, 9>>} ELSE {}]
StepSet(z_) == IF ~Emit THEN {StepOf(0, 80000000, 5000, W38, b, 1) : b \in {"SIMPLE", "SPEC_DELAYS_GAINS"}}
           ELSE {StepOf(c, 5000000, d, w, b, x) : c \in RandomSubset(1, {0, 1250000, 23999999}), d \in RandomSubset(1, {5, 1001, 60000, 600000} \cup (IF Rare(15) THEN {4} ELSE {})),
                     w \in RandomSubset(1, Tune(Tunings)), b \in {"SIMPLE", "HIGH_DR", "SPEC_DELAYS_GAINS"} \cup (IF Rare(25) THEN {"BADLEN", "HALF"} ELSE {}), x \in RandomSubset(1, 0..3)}
NSteps(z_) == IF ~Emit THEN {1, 2} ELSE IF Rare(60) THEN {1024, 1025} ELSE IF Rare(25) THEN {0} ELSE 1..4
StepSeqs(z_) == IF Emit THEN {[i \in 1..(RandomElement(NSteps(0))) |-> RandomElement(StepSet(0))]} ELSE UNION {[1..n -> StepSet(0)] : n \in NSteps(0)}
Slim(t, n) == IF n > 4 /\ t.b = "SPEC_DELAYS_GAINS" THEN [t EXCEPT !.b = "SIMPLE", !.dl = {}, !.gn = {}] ELSE t
Number(q) == [i \in DOMAIN q |-> [Slim(q[i], Len(q)) EXCEPT !.id = i, !.c1 = (@ + 1000*i) % 24000000,
                 !.c2 = IF i % 3 = 0 THEN 30500000 ELSE 80000000 + 100*(i % 100)]]
Small == {[b |-> 0, ov |-> {}], [b |-> -1, ov |-> {<<1, 1>>, <<256, 0>>}]}
ArrSet(z_) == IF Emit THEN {Arr(-1), Arr(0), Arr(1), [b |-> -1, ov |-> {<<1, 1>>, <<256, 0>>}], [b |-> -1, ov |-> {<<17, 1>>}], [b |-> 1, ov |-> {<<3, -1>>, <<200, 0>>}]}
                        \cup (IF Rare(8) THEN {Arr(15), Arr(7), Arr(31), Arr(2), [b |-> -1, ov |-> {<<5, 16>>}]} ELSE {}) ELSE Small
Obs(k) ==
    \E m \in Pick({"TBS", "TRK_RADEC", "TRK_SOL", "STEPPED"}, ModeFor(ss[k])),
       st \in Pick({0, 10000}, StartFor(ss[k])), us \in Pick({0}, {0, 0, 400, 600}), du \in Pick({5000}, Durs \cup (IF Rare(8) THEN {216000000, 0} ELSE {})),
       dus \in Pick({0}, {0, 400, 600}), w1 \in Pick({W38}, Tune(Tunings)), w2 \in Pick({W38}, Tune(Tunings) \cup {0}),
       bw \in Pick({7}, {1, 6, 7} \cup (IF Rare(25) THEN {0, 8} ELSE {})), ra \in Pick({0}, {0, 1250000, 19991234, 23999999}), dec \in Pick({80000000}, {80000000, 75500000, 88999999} \cup (IF Rare(12) THEN {-80000000, 40734000, -30500000} ELSE {})),
       hdr \in Pick(BOOLEAN, BOOLEAN), gain \in Pick({5}, {-1, -1, 0, 5, 12}), stand \in Pick({0}, {0, 0, 0, 1, 38, 256}), ns \in Pick({1}, {0, 196000, 1960000, 392000000} \cup (IF Rare(6) THEN {392196000} ELSE {})),
       radec \in Pick({TRUE}, BOOLEAN), q \in StepSeqs(0), an \in Pick({"fee1"}, Arrays), av \in Pick(Small, ArrSet(0)), an2 \in Pick({"fee2"}, Arrays), av2 \in Pick({Arr(-1)}, ArrSet(0)),
       tx \in Pick({""}, Texts), ty \in Pick({"x"}, Texts), tf \in Pick({"utc"}, {"utc", "iso", "mon", "mst", "off", "off2", "short", "dt", "dtz", "astro"}),
       df \in Pick({"str"}, {"str", "td", "float", "quantity", "sec"}), cf \in Pick({"float"}, {"float", "str", "ephem", "astropy"}),
       ff \in Pick({"hz"}, {"hz", "quantity"}), how \in Pick({"append"}, {"append", "list", "insert", "extend", "gen", "set"}) :
      LET us1 == IF us = 600 /\ st + 1 >= 4*Day THEN 0 ELSE us
          t == At(st + Half(us1))
          d == IF m \in {"TBT", "STEPPED"} THEN 0 ELSE du + Half(dus)
          bwm == IF m = "TBS" THEN (IF bw = 0 THEN 7 ELSE 8) ELSE bw
          q2 == IF m = "STEPPED" THEN Number(q) ELSE << >>
          arr == [[NoArr EXCEPT ![an] = av] EXCEPT ![an2] = av2]
          o == [Blank EXCEPT !.mode = m, !.title = tx, !.target = ty, !.rem = tx, !.mjd = t.mjd, !.mpm = t.mpm, !.dur = d,
                  !.f1 = IF m \in {"TBT", "STEPPED"} THEN 0 ELSE w1, !.f2 = IF m \in DrxModes \ {"STEPPED"} THEN w2 ELSE 0, !.bw = IF m = "TBT" THEN 1 ELSE bwm,
                  !.ra = IF m = "TRK_RADEC" THEN ra ELSE 0, !.dec = IF m = "TRK_RADEC" THEN dec ELSE 0,
                  !.hdr = (hdr /\ m \in DrxModes \ {"STEPPED"}), !.gain = IF m \in DrxModes /\ (Emit \/ hdr) THEN gain ELSE -1,
                  !.samples = IF m = "TBT" THEN ns ELSE 0, !.radec = radec, !.steps = q2, !.arr = arr]
          stand1 == IF m \in {"TRK_RADEC", "STEPPED", "TRK_SOL"} THEN stand ELSE 0
          o2 == Settle(IF ~Emit /\ hdr THEN [o EXCEPT !.bdm = <<5, 400, 10000, "X">>] ELSE o) IN
      /\ Emit => LET day == st % Day IN \/ m \notin {"TRK_SOL", "TRK_JOV", "TRK_LUN"} \/ Rare(8)
                                        \/ day \in (CASE m = "TRK_SOL" -> 50000000..80000000 [] m = "TRK_JOV" -> 43000000..78000000 [] OTHER -> 8000000..30000000)
      /\ ss' = [ss EXCEPT ![k] = [@ EXCEPT !.obs = Append(@, o2), !.up = Append(@, TRUE)]]
      /\ Do([op |-> "obs", s |-> k, o |-> o, st |-> st, us |-> us1, du |-> du, dus |-> dus, tf |-> tf, df |-> df, cf |-> cf, ff |-> ff, how |-> how, stand |-> stand1])
      /\ Quiet
Change(k) ==
    /\ Emit /\ ss[k].obs # << >> /\ Rare(2)
    /\ \E i \in One(DOMAIN ss[k].obs), f \in One({"start", "dur", "f1", "bw"}), st \in One(StartFor(ss[k])), du \in One(Durs), w \in One(Tune(Tunings)), bw \in One(1..7) :
         LET o == ss[k].obs[i]
             t == At(st)
             p == Settle(CASE f = "start" -> [o EXCEPT !.mjd = t.mjd, !.mpm = t.mpm] [] f = "dur" -> [o EXCEPT !.dur = du] [] f = "f1" -> [o EXCEPT !.f1 = w] [] OTHER -> [o EXCEPT !.bw = bw]) IN
         /\ (f = "dur" => o.mode \notin {"TBT", "STEPPED"}) /\ (f = "f1" => o.mode \notin {"TBT", "STEPPED"}) /\ (f = "bw" => o.mode \notin TbModes)
         /\ ss' = [ss EXCEPT ![k].obs[i] = p]
         /\ Do([op |-> "change", s |-> k, i |-> i, f |-> f, st |-> st, du |-> du, w |-> w, bw |-> bw])
    /\ Quiet
Rejects == {"ra24", "ra-", "dec91", "dec-91", "az360", "alt-", "naive", "notime", "spcchan", "spcwin", "spctag", "mib", "drm",
            "append", "extend", "insert", "setitem", "ctor", "steplist", "bdmstand", "bdmgain", "bdmpol", "observer"}
Dropped == {"OBS_TITLE", "OBS_TARGET", "OBS_REMPI", "OBS_B", "OBS_FREQ2", "OBS_DRX_GAIN", "OBS_FEE", "OBS_ASP_FLT", "OBS_ASP_AT1", "OBS_ASP_AT2", "OBS_ASP_AT3", "OBS_BDM", "SESSION_CRA",
            "SESSION_DRX_BEAM", "SESSION_SPC", "SESSION_MRP", "SESSION_MUP", "SESSION_LOG_SCH"}
Other ==
    /\ Emit /\ UNCHANGED ss /\ Quiet
    /\ \E k \in One(DOMAIN ss) :
         \/ ss[k].obs # << >> /\ Do([op |-> "validate"])
         \/ ss[k].obs # << >> /\ Do([op |-> "render", s |-> k])
         \/ \E f \in One(Rejects) : Rare(3) /\ Do([op |-> "reject", f |-> f])
         \/ \E f \in One(Dropped), n \in One(0..2), e \in One({"drop", "reverse", "zero", "swap"}) : ss[k].obs # << >> /\ Do([op |-> "edit", s |-> k, f |-> f, n |-> n, e |-> e])
(* the file, read line by line *)
Open == /\ ~Emit /\ lines = << >> /\ ss # << >> /\ ss[1].obs # << >> /\ GoodSession(ss[1])
        /\ lines' = Written(ss[1]) /\ r' = Start /\ UNCHANGED <<ss, hist, ops>>
ReadLine == /\ ~Emit /\ lines # << >> /\ r' = Read(r, Head(lines)) /\ lines' = Tail(lines) /\ UNCHANGED <<ss, hist, ops>>
Next ==
    \/ /\ ops < MaxOps /\ lines = << >> /\ r = Start
       /\ \/ NewSession
          \/ \E k \in One(DOMAIN ss) : Len(ss[k].obs) < MaxObs /\ Obs(k)
          \/ \E k \in One(DOMAIN ss) : Emit /\ Len(ss[k].obs) < MaxObs /\ Obs(k)
          \/ \E k \in One(DOMAIN ss) : Change(k)
          \/ (ss # << >> /\ Other)
    \/ Open \/ ReadLine
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* Reading what was written gives back the session, whatever it is.          *)
ReadBack == (lines = << >> /\ r # Start) => Holds([h |-> r.h, obs |-> Close(r)], ss[1])
(* An observation means what its own lines say, whatever comes before it.     *)
Alone == ~Emit /\ lines = << >> /\ r # Start =>
    \A i \in DOMAIN ss[1].obs : Means(WriteObs(InOrder(ss[1])[i], 1)).obs = <<(Close(r))[i]>>
(* Acceptance is a matter of the set of observations, and more of them are never more acceptable. *)
Order == ~Emit /\ ss # << >> /\ lines = << >> =>
    LET s == ss[1] IN /\ GoodSession(s) = GoodSession([s EXCEPT !.obs = Reverse(@), !.up = Reverse(@)])
                      /\ (GoodSession(s) /\ s.obs # << >>) => GoodSession([s EXCEPT !.obs = Tail(@), !.up = Tail(@)])
EmitDone == ops = MaxOps => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.GEN_OUT)
=============================================================================
