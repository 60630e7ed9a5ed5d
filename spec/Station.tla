------------------------------ MODULE Station ------------------------------
(* Stations and the files that describe them (lsl/common/stations.py and the  *)
(* part of lsl/common/sdm.py that updates antennas).  A station file is a     *)
(* list of statements about cells of tables; a later statement about a cell   *)
(* replaces an earlier one and a statement without a subscript is about all   *)
(* of them.  The tables say what is connected to what; the station is the     *)
(* list of antennas, each with all that it is connected to, in the order of   *)
(* the digitizer inputs.                                                      *)
(* Lengths, angles and gains are integers, in thousandths; the attenuation    *)
(* coefficients of cables are in hundred-thousandths; frequencies are in Hz.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
B == INSTANCE Bundle
----------------------------------------------------------------------------
(* The tables. *)
Blank == [id |-> "", lat |-> 0, lon |-> 0, el |-> 0, gain |-> 0, ok |-> TRUE, pos |-> << >>, ant |-> << >>, asp |-> << >>, fee |-> << >>, rpd |-> << >>,
          arbch |-> 0, arb |-> << >>, snapch |-> 0, snap |-> << >>]
StdCol == [STD_LX |-> 1, STD_LY |-> 2, STD_LZ |-> 3]
AntCol == [ANT_STD |-> "std", ANT_ORIE |-> "orie", ANT_STAT |-> "stat", ANT_THETA |-> "th", ANT_PHI |-> "ph"]
FeeCol == [FEE_ID |-> "id", FEE_STAT |-> "stat", FEE_GAI1 |-> "g1", FEE_GAI2 |-> "g2", FEE_ANT1 |-> "a1", FEE_ANT2 |-> "a2"]
RpdCol == [RPD_ID |-> "id", RPD_LENG |-> "leng", RPD_VF |-> "vf", RPD_DD |-> "dd", RPD_A0 |-> "k0", RPD_A1 |-> "k1", RPD_FREF |-> "fref", RPD_STR |-> "str", RPD_ANT |-> "ant"]
AspCol == [ASP_AT1 |-> "at1", ASP_AT2 |-> "at2", ASP_AT3 |-> "at3"]
ArbCol == [ARB_ANT |-> "ant", ARB_IN |-> "in", ARB_OUT |-> "out"]
SnapCol == [SNAP_ANT |-> "ant", SNAP_INR |-> "inr"]
(* One statement, s.k about the cell s.i with the value s.v. *)
Read(T, s) ==
    LET k == s.k
        v == s.v IN
    CASE k = "FORMAT_VERSION" -> [T EXCEPT !.ok = @ /\ v = 10]
      [] k = "STATION_ID" -> [T EXCEPT !.id = v]
      [] k = "GEO_N" -> [T EXCEPT !.lat = v]
      [] k = "GEO_E" -> [T EXCEPT !.lon = v]
      [] k = "GEO_EL" -> [T EXCEPT !.el = v]
      [] k = "DRX_GAIN" -> [T EXCEPT !.gain = v]
      [] k = "N_STD" -> [T EXCEPT !.pos = [i \in 1..v |-> <<0, 0, 0>>], !.asp = [i \in 1..v |-> [at1 |-> 0, at2 |-> 0, at3 |-> 0]],
                                  !.ant = [i \in 1..2*v |-> [std |-> (i + 1) \div 2, orie |-> (i + 1) % 2, stat |-> 3, th |-> 0, ph |-> 0]]]
      [] k = "N_FEE" -> [T EXCEPT !.fee = [i \in 1..v |-> [id |-> "UNK", stat |-> 3, g1 |-> 35700, g2 |-> 35700, a1 |-> 2*i - 1, a2 |-> 2*i]]]
      [] k = "N_RPD" -> [T EXCEPT !.rpd = [i \in 1..v |-> [id |-> "UNK", leng |-> 0, vf |-> 83000, dd |-> 2400, k0 |-> 428, k1 |-> 0, fref |-> 10000000, str |-> 1000, ant |-> i]]]
      [] k = "N_ARB" -> [T EXCEPT !.arb = [i \in 1..v |-> [id |-> "UNK", ch |-> << >>]]]
      [] k = "N_ARBCH" -> [T EXCEPT !.arbch = v, !.arb = [i \in DOMAIN @ |-> [@[i] EXCEPT !.ch = [c \in 1..v |-> [ant |-> (i - 1)*v + c, in |-> "UNK", out |-> "UNK"]]]]]
      [] k = "N_SNAP" -> [T EXCEPT !.snap = [i \in 1..v |-> << >>]]
      [] k = "N_SNAPCH" -> [T EXCEPT !.snapch = v, !.snap = [i \in DOMAIN @ |-> [c \in 1..v |-> [ant |-> (i - 1)*v + c, inr |-> "UNK"]]]]
      [] k \in DOMAIN StdCol -> [T EXCEPT !.pos[s.i[1]][StdCol[k]] = v]
      [] k \in DOMAIN AntCol -> [T EXCEPT !.ant[s.i[1]][AntCol[k]] = v]
      [] k \in DOMAIN FeeCol -> [T EXCEPT !.fee[s.i[1]][FeeCol[k]] = v]
      [] k \in DOMAIN RpdCol -> IF s.i = << >> THEN [T EXCEPT !.rpd = [i \in DOMAIN @ |-> [@[i] EXCEPT ![RpdCol[k]] = v]]] ELSE [T EXCEPT !.rpd[s.i[1]][RpdCol[k]] = v]
      [] k \in DOMAIN AspCol -> IF s.i = << >> THEN [T EXCEPT !.asp = [i \in DOMAIN @ |-> [@[i] EXCEPT ![AspCol[k]] = v]]] ELSE [T EXCEPT !.asp[s.i[1]][AspCol[k]] = v]
      [] k = "ARB_ID" -> [T EXCEPT !.arb[s.i[1]].id = v]
      [] k \in DOMAIN ArbCol -> [T EXCEPT !.arb[s.i[1]].ch[s.i[2]][ArbCol[k]] = v]
      [] k \in DOMAIN SnapCol -> [T EXCEPT !.snap[s.i[1]][s.i[2]][SnapCol[k]] = v]
      [] OTHER -> T
Tables(ls) == FoldLeft(Read, Blank, ls)
----------------------------------------------------------------------------
(* The station. *)
Name(id) == CASE id = "VL" -> "LWA1" [] id = "NA" -> "LWANA" [] id = "SV" -> "LWASV" [] id = "OV" -> "OVROLWA" [] OTHER -> "New LWA Station"
Number(id) == CASE id = "101" -> 101 [] id = "210" -> 210 [] id = "343" -> 343 [] id = "499" -> 499 [] id = "8245" -> 8245 [] OTHER -> 7
Cells(n, m) == {<<i, j>> : i \in 1..n, j \in 1..m}
Lowest(S) == CHOOSE x \in S : \A y \in S : x <= y
(* The number of the (only) entry that is connected to an antenna, 0 if there is none. *)
FeeOn(T, a, col) == LET f == {i \in DOMAIN T.fee : T.fee[i][col] = a} IN IF f = {} THEN 0 ELSE Lowest(f)
RpdOn(T, a) == LET f == {i \in DOMAIN T.rpd : T.rpd[i].ant = a} IN IF f = {} THEN 0 ELSE Lowest(f)
ArbOn(T, a) == LET f == {c \in Cells(Len(T.arb), T.arbch) : T.arb[c[1]].ch[c[2]].ant = a} IN IF f = {} THEN <<0, 0>> ELSE CHOOSE c \in f : TRUE
SnapOn(T, a) == LET f == {c \in Cells(Len(T.snap), T.snapch) : T.snap[c[1]][c[2]].ant = a} IN IF f = {} THEN <<0, 0>> ELSE CHOOSE c \in f : TRUE
(* Attenuators work on pairs of ASP channels; in units of half a decibel, relative to the lowest setting. *)
Least(T, col) == Lowest({T.asp[i][col] : i \in DOMAIN T.asp})
Att(T, n) == LET p == (n + 1) \div 2 IN
    IF p \notin DOMAIN T.asp THEN 0 ELSE 4*(T.asp[p].at1 - Least(T, "at1")) + 4*(T.asp[p].at2 - Least(T, "at2")) + (T.asp[p].at3 - Least(T, "at3"))
Antenna(T, a) ==
    LET x == T.ant[a]
        f1 == FeeOn(T, a, "a1")
        f2 == FeeOn(T, a, "a2")
        f == IF f2 # 0 THEN f2 ELSE f1
        r == RpdOn(T, a)
        ab == ArbOn(T, a)
        sn == SnapOn(T, a)
        asp == IF ab[1] = 0 THEN 0 ELSE (ab[1] - 1)*T.arbch + ab[2] IN
    [id |-> a, std |-> x.std, pol |-> x.orie, th |-> x.th, ph |-> x.ph, stat |-> x.stat,
     fee |-> IF f = 0 THEN <<"", 0, 0, 0, 0>> ELSE <<T.fee[f].id, f, T.fee[f].g1, T.fee[f].g2, T.fee[f].stat>>, port |-> IF f2 # 0 THEN 2 ELSE 1,
     cable |-> IF r = 0 THEN [id |-> "", n |-> <<0, 0, 0, 428, 0, 10000000, 1000>>]
               ELSE [id |-> T.rpd[r].id, n |-> <<T.rpd[r].leng, T.rpd[r].vf, T.rpd[r].dd, T.rpd[r].k0, T.rpd[r].k1, T.rpd[r].fref, T.rpd[r].str>>],
     clk |-> 0, att |-> IF asp = 0 \/ r = 0 THEN 0 ELSE Att(T, asp),
     arx |-> IF ab[1] = 0 THEN <<0, 0, 0>> ELSE <<Number(T.arb[ab[1]].id), ab[2], asp>>,
     io |-> IF ab[1] = 0 THEN <<"", "">> ELSE <<T.arb[ab[1]].ch[ab[2]].in, T.arb[ab[1]].ch[ab[2]].out>>,
     brd |-> sn[1], dig |-> IF sn[1] = 0 THEN 0 ELSE (sn[1] - 1)*T.snapch + sn[2], inr |-> IF sn[1] = 0 THEN "" ELSE T.snap[sn[1]][sn[2]].inr]
Order(as) == SortSeq(as, LAMBDA x, y : x.dig < y.dig \/ (x.dig = y.dig /\ x.id < y.id))
Build(T) == [id |-> T.id, name |-> Name(T.id), lat |-> T.lat, lon |-> T.lon, el |-> T.el, gain |-> T.gain, min |-> -1, ndp |-> T.id \in {"VL", "NA", "SV"},
             pos |-> T.pos, ants |-> Order([a \in DOMAIN T.ant |-> Antenna(T, a)])]
Updated(as, st) == [i \in DOMAIN as |-> [as[i] EXCEPT !.stat = st[2*(as[i].std - 1) + as[i].pol + 1]]]
----------------------------------------------------------------------------
(* The binary form. *)
F(n, t, d) == <<n, t, d>>
SSMIF == <<F("FORMAT_VERSION", "int", <<1>>), F("STATION_ID", "char", <<3>>), F("GEO_N", "double", <<1>>), F("GEO_E", "double", <<1>>), F("GEO_EL", "double", <<1>>),
  F("N_STD", "int", <<1>>), F("STD_LX", "double", <<256>>), F("STD_LY", "double", <<256>>), F("STD_LZ", "double", <<256>>), F("ANT_STD", "int", <<512>>),
  F("ANT_ORIE", "int", <<512>>), F("ANT_STAT", "int", <<512>>), F("ANT_THETA", "float", <<512>>), F("ANT_PHI", "float", <<512>>), F("ANT_DESI", "int", <<512>>),
  F("N_FEE", "int", <<1>>), F("FEE_ID", "char", <<256, 11>>), F("FEE_STAT", "int", <<256>>), F("FEE_DESI", "int", <<256>>), F("FEE_GAI1", "float", <<256>>),
  F("FEE_GAI2", "float", <<256>>), F("FEE_ANT1", "int", <<256>>), F("FEE_ANT2", "int", <<256>>), F("FEE_RACK", "int", <<256>>), F("FEE_PORT", "int", <<256>>),
  F("N_RPD", "int", <<1>>), F("RPD_ID", "char", <<512, 26>>), F("RPD_STAT", "int", <<512>>), F("RPD_DESI", "int", <<512>>), F("RPD_LENG", "float", <<512>>),
  F("RPD_VF", "float", <<512>>), F("RPD_DD", "float", <<512>>), F("RPD_A0", "float", <<512>>), F("RPD_A1", "float", <<512>>), F("RPD_FREF", "float", <<512>>),
  F("RPD_STR", "float", <<512>>), F("RPD_ANT", "int", <<512>>), F("N_SEP", "int", <<1>>), F("SEP_ID", "char", <<512, 26>>), F("SEP_STAT", "int", <<512>>),
  F("SEP_CABL", "char", <<512, 26>>), F("SEP_LENG", "float", <<512>>), F("SEP_DESI", "int", <<512>>), F("SEP_GAIN", "float", <<512>>), F("SEP_ANT", "int", <<512>>),
  F("N_ARB", "int", <<1>>), F("N_ARBCH", "int", <<1>>), F("ARB_ID", "char", <<32, 11>>), F("ARB_SLOT", "int", <<32>>), F("ARB_DESI", "int", <<32>>),
  F("ARB_RACK", "int", <<32>>), F("ARB_PORT", "int", <<32>>), F("ARB_STAT", "int", <<32, 16>>), F("ARB_GAIN", "float", <<32, 16>>), F("ARB_ANT", "int", <<32, 16>>),
  F("ARB_IN", "char", <<32, 16, 11>>), F("ARB_OUT", "char", <<32, 16, 11>>), F("N_SNAP", "int", <<1>>), F("N_SNAPCH", "int", <<1>>), F("SNAP_ID", "char", <<16, 11>>),
  F("SNAP_SLOT", "char", <<16, 11>>), F("SNAP_DESI", "int", <<16>>), F("SNAP_STAT", "int", <<16, 64>>), F("SNAP_INR", "char", <<16, 64, 11>>),
  F("SNAP_INC", "char", <<16, 64, 11>>), F("SNAP_ANT", "int", <<16, 64>>), F("N_SERVER", "int", <<1>>), F("SERVER_ID", "char", <<5, 11>>), F("SERVER_SLOT", "char", <<5, 11>>),
  F("SERVER_STAT", "int", <<5>>), F("SERVER_DESI", "int", <<5>>), F("N_DR", "int", <<1>>), F("DR_STAT", "int", <<5>>), F("DR_ID", "char", <<5, 11>>), F("DR_PC", "char", <<5, 11>>),
  F("DR_NDP", "int", <<5>>), F("N_PWR_RACK", "int", <<1>>), F("N_PWR_PORT", "int", <<8>>), F("PWR_SS", "int", <<8, 50>>), F("PWR_NAME", "char", <<8, 50, 4>>), F("MCS_CRA", "int", <<1>>),
  F("PC_AXIS_TH", "float", <<1>>), F("PC_AXIS_PH", "float", <<1>>), F("PC_ROT", "float", <<1>>)>>
Prod(s) == FoldLeft(LAMBDA a, x : a*x, 1, s)
Flat == [i \in DOMAIN SSMIF |-> <<SSMIF[i][1], SSMIF[i][2], Prod(SSMIF[i][3])>>]
Layout == [f |-> SSMIF, o |-> B!Offsets(Flat), n |-> B!Size(Flat), sf |-> B!SETS, so |-> B!Offsets(B!SETS), sn |-> B!Size(B!SETS)]
=============================================================================
