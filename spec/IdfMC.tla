------------------------------- MODULE IdfMC -------------------------------
(* Runs built one scan at a time, written, and read line by line.            *)
EXTENDS Idf, Randomization, Json, IOUtils, CSV
CONSTANTS MaxObs, MaxOps, Emit
VARIABLES ss, hist, ops, lines, r
vars == <<ss, hist, ops, lines, r>>
One(X) == IF Emit THEN RandomSubset(1, X) ELSE X
Pick(small, big) == One(IF Emit THEN big ELSE small)
Rare(n) == IF Emit THEN RandomElement(1..n) = 1 ELSE TRUE
Texts == {"", "Cyg A", "a, b  c", "SCAN_ID 4", "x[1] {y} ;; 'z'", "None", "RUN_ID 3"}
Names == Texts \ {""}
W38 == 832697741
W74 == 1621569284
Tunings == {W38, W74, 222417950, 1928352663, 222417949, 1928352664, 0}
Starts == {0, 1, 3600000, 7199999, 43200000, 44200000, 69000000, 72000000, 86399999, 86400000, 172800000, 259199600}
Durs == {1, 999, 1000, 9999, 59999, 60000, 600000, 3599999, 3600000, 4500000}
Init == ss = << >> /\ hist = << >> /\ ops = 0 /\ lines = << >> /\ r = Start
Do(ev) == hist' = (IF Emit THEN Append(hist, ev) ELSE hist) /\ ops' = ops + 1
Quiet == UNCHANGED <<lines, r>>
Arrays(z_) == {<<"VL", "SV">>, <<"SV", "VL">>, <<"VL", "SV", "NA">>, <<"NA", "OV", "VL">>, <<"OV", "SV">>} \cup (IF Rare(20) THEN {<<"VL", "VL">>, <<"SV", "NA", "SV">>} ELSE {})
NewRun ==
    /\ Len(ss) < (IF Emit THEN 2 ELSE 1) /\ (Emit => ops < 2 /\ (ops = 0 \/ Rare(6)))
    /\ \E tx \in Pick({"t"}, Texts), tc \in Pick({""}, Texts), u \in Pick({"", "joe"}, {"", "joe", "joe/data-1/x"}), po \in Pick({""}, {"", "checked", "x;;y"}),
          drm \in Pick({"DRSU"}, {"DRSU", "UCF", "USB Harddrives"}), rid \in Pick({1}, {1, 101, 9999} \cup (IF Rare(25) THEN {0, 10000} ELSE {})),
          st \in Pick({<<"VL", "SV">>}, Arrays(0)), chan \in Pick({512}, {16, 512, 32768}), intt \in Pick({1000}, {100, 1000, 2345, 10000}),
          basis \in Pick({"linear"}, {"linear", "circular", "stokes"}) :
         LET h == [Header EXCEPT !.piid = 7, !.piname = "Doe, Jane", !.pid = "LT001", !.ptitle = "Project", !.prem = tc, !.rid = rid, !.rtitle = tx, !.rrem = tc,
                     !.drm = drm, !.rrempo = po, !.stations = st, !.chan = chan, !.intt = intt, !.basis = basis, !.ucf = u] IN
         /\ ss' = Append(ss, [h |-> h, obs |-> << >>, up |-> << >>, sep |-> << >>])
         /\ Do([op |-> "run", h |-> h])
    /\ Quiet
StartFor(s) == IF s.obs = << >> \/ Rare(12) THEN Starts
               ELSE {S!End(s.obs[Len(s.obs)]) + d : d \in {0, 1, 5000}} \cup
                    {x \in {S!Begin(s.obs[1]) - d : d \in {1000, 600000, 3600000, 20000000}} : x >= 0}
Tune(w) == IF Emit /\ ~Rare(25) THEN {W38, W74, 222417950, 1928352663} ELSE w
BwFor(s) == IF s.obs = << >> \/ Rare(25) THEN {1, 6, 7} \cup (IF Rare(25) THEN {0, 8} ELSE {}) ELSE {s.obs[1].bw}
Moves == {Still, <<31827, 5921>>, <<-1, 0>>, <<0, -12500>>, <<-99999, 3>>}
AltSet(ra, dec) ==
    IF ~Emit THEN {[Alt0(0) EXCEPT !.target = "a", !.intent = "target", !.ra = ra, !.dec = dec, !.pm = p] : p \in {Still, <<-1, 0>>}}
    ELSE {[Alt0(0) EXCEPT !.target = t, !.intent = n, !.ra = (ra + d) % 24000000, !.dec = dec - e, !.pm = p] :
            t \in RandomSubset(1, Names \ {"x[1] {y} ;; 'z'"}), n \in RandomSubset(1, Intents), d \in RandomSubset(1, {0, 1000, 20000}),
            e \in RandomSubset(1, {0, 250000, 600000} \cup (IF Rare(12) THEN {1600000, 5000000} ELSE {})), p \in RandomSubset(2, Moves)}
NAlts(z_) == IF ~Emit THEN {0, 1, 2} ELSE IF Rare(25) THEN {10, 11} ELSE IF Rare(2) THEN {0} ELSE 1..3
Alts(ra, dec) == IF Emit THEN {[i \in 1..(RandomElement(NAlts(0))) |-> RandomElement(AltSet(ra, dec))]} ELSE UNION {[1..n -> AltSet(ra, dec)] : n \in NAlts(0)}
Number(q) == [i \in DOMAIN q |-> [q[i] EXCEPT !.id = i]]
Scan(k) ==
    \E m \in Pick({"TRK_RADEC", "TRK_SOL"}, Modes \cup {"TRK_RADEC"}), st \in Pick({0, 10000}, StartFor(ss[k])), us \in Pick({0}, {0, 400, 600}),
       du \in Pick({5000}, Durs \cup (IF Rare(10) THEN {216000000, 0} ELSE {})), dus \in Pick({0}, {0, 400, 600}), w1 \in Pick({W38}, Tune(Tunings)), w2 \in Pick({W38}, Tune(Tunings) \cup {0}),
       bw \in Pick({7}, BwFor(ss[k])), ra \in Pick({0}, {0, 1, 1250000, 19991234, 23999999}), dec \in Pick({80000000}, {80000000, 75500000, 84999999} \cup (IF Rare(12) THEN {-80000000, 40734000, -30500000} ELSE {})),
       pm \in Pick({Still, <<31827, 5921>>}, Moves), gain \in Pick({5}, {-1, 0, 5, 12}), flt \in Pick({-1, 3}, {-1, -1, 0, 3}),
       tx \in Pick({"x"}, Names), rem \in Pick({""}, Texts), int \in Pick({"target"}, Intents), tf \in Pick({"utc"}, {"utc", "iso", "mon", "mst", "off", "off2", "short", "dt", "dtz", "astro"}),
       df \in Pick({"str"}, {"str", "td", "float", "quantity", "sec"}), cf \in Pick({"float"}, {"float", "str", "ephem", "astropy"}),
       ff \in Pick({"hz"}, {"hz", "quantity"}), how \in Pick({"append"}, {"append", "list", "insert", "extend", "gen", "set"}), case \in Pick({0}, {0, 1}) :
      \E q \in Alts(ra, dec) :
      LET t == S!At(st + S!Half(us))
          q2 == IF m = "TRK_RADEC" \/ ~Emit \/ Rare(10) THEN Number(q) ELSE << >>
          o == [Blank EXCEPT !.mode = m, !.target = tx, !.intent = int, !.rem = rem, !.mjd = t.mjd, !.mpm = t.mpm, !.dur = du + S!Half(dus), !.f1 = w1, !.f2 = w2,
                  !.bw = bw, !.ra = IF m = "TRK_RADEC" THEN ra ELSE 0, !.dec = IF m = "TRK_RADEC" THEN dec ELSE 0, !.pm = IF m = "TRK_RADEC" THEN pm ELSE Still,
                  !.gain = gain, !.flt = flt, !.alts = q2] IN
      /\ Emit => LET day == st % S!Day IN \/ m = "TRK_RADEC" \/ Rare(8) \/ day \in (IF m = "TRK_SOL" THEN 44000000..80000000 ELSE 45000000..75000000)
      /\ ss' = [ss EXCEPT ![k] = [@ EXCEPT !.obs = Append(@, o), !.up = Append(@, TRUE), !.sep = Append(@, [i \in DOMAIN q2 |-> 0])]]
      /\ Do([op |-> "scan", s |-> k, o |-> o, st |-> st, us |-> us, du |-> du, dus |-> dus, tf |-> tf, df |-> df, cf |-> cf, ff |-> ff, how |-> how, up |-> case])
      /\ Quiet
Change(k) ==
    /\ Emit /\ ss[k].obs # << >> /\ Rare(2)
    /\ \E i \in One(DOMAIN ss[k].obs), f \in One({"start", "dur", "f1", "pm", "dropalt"}), st \in One(StartFor(ss[k])), du \in One(Durs), w \in One(Tune(Tunings)), pm \in One(Moves) :
         LET o == ss[k].obs[i]
             t == S!At(st)
             p == CASE f = "start" -> [o EXCEPT !.mjd = t.mjd, !.mpm = t.mpm] [] f = "dur" -> [o EXCEPT !.dur = du] [] f = "f1" -> [o EXCEPT !.f1 = w]
                    [] f = "pm" -> [o EXCEPT !.pm = pm] [] OTHER -> [o EXCEPT !.alts = << >>] IN
         /\ (f = "pm" => o.mode = "TRK_RADEC")
         /\ ss' = [ss EXCEPT ![k].obs[i] = p]
         /\ Do([op |-> "change", s |-> k, i |-> i, f |-> f, st |-> st, du |-> du, w |-> w, pm |-> pm])
    /\ Quiet
Rejects == {"ra24", "ra-", "dec91", "dec-91", "naive", "notime", "intent", "pm3", "pm1", "chan8", "chan17", "chan65536", "int0", "int11", "basis", "drm", "one",
            "append", "extend", "insert", "setitem", "ctor", "observer", "altra", "altdec", "altintent", "alt", "station"}
Dropped == {"SCAN_REMPI", "SCAN_FREQ2", "SCAN_DRX_GAIN", "SCAN_ASP_FLT", "SCAN_PM_RA", "SCAN_PM_DEC", "SCAN_ALT", "SCAN_ALT_PM_RA", "SCAN_RA", "RUN_TITLE", "RUN_BASIS", "RUN_CHANNELS", "RUN_INTTIME"}
Other ==
    /\ Emit /\ UNCHANGED ss /\ Quiet
    /\ \E k \in One(DOMAIN ss) :
         \/ ss[k].obs # << >> /\ Do([op |-> "validate"])
         \/ ss[k].obs # << >> /\ Do([op |-> "render", s |-> k])
         \/ \E first \in One({1, 57, 9000}) : ss[k].obs # << >> /\ Do([op |-> "sdfs", s |-> k, first |-> first])
         \/ \E f \in One(Rejects) : Rare(3) /\ Do([op |-> "reject", f |-> f])
         \/ \E f \in One(Dropped), n \in One(0..2), e \in One({"drop", "reverse", "swap", "all"}) : ss[k].obs # << >> /\ Do([op |-> "edit", s |-> k, f |-> f, n |-> n, e |-> e])
Open == /\ ~Emit /\ lines = << >> /\ ss # << >> /\ ss[1].obs # << >> /\ GoodRun(ss[1])
        /\ lines' = Written(ss[1]) /\ r' = Start /\ UNCHANGED <<ss, hist, ops>>
ReadLine == /\ ~Emit /\ lines # << >> /\ r' = Read(r, Head(lines)) /\ lines' = Tail(lines) /\ UNCHANGED <<ss, hist, ops>>
Next ==
    \/ /\ ops < MaxOps /\ lines = << >> /\ r = Start
       /\ \/ NewRun
          \/ \E k \in One(DOMAIN ss) : Len(ss[k].obs) < MaxObs /\ Scan(k)
          \/ \E k \in One(DOMAIN ss) : Emit /\ Len(ss[k].obs) < MaxObs /\ Scan(k)
          \/ \E k \in One(DOMAIN ss) : Change(k)
          \/ (ss # << >> /\ Other)
    \/ Open \/ ReadLine
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
ReadBack == (lines = << >> /\ r # Start) => Holds([h |-> r.h, obs |-> Close(r)], ss[1])
Alone == ~Emit /\ lines = << >> /\ r # Start =>
    \A i \in DOMAIN ss[1].obs : Means(WriteScan(InOrder(ss[1])[i], 1)).obs = <<(Close(r))[i]>>
(* Every station gets every scan, and the sessions differ only in the station and the number. *)
Fan == ~Emit /\ ss # << >> =>
    LET q == Sessions(ss[1], 1) IN
    /\ Len(q) = Len(ss[1].h.stations)
    /\ \A i \in DOMAIN q : q[i].obs = q[1].obs /\ Len(q[i].obs) = Len(ss[1].obs) /\ \A j \in DOMAIN q : i # j => q[i].sid # q[j].sid
EmitDone == ops = MaxOps => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.GEN_OUT)
=============================================================================
