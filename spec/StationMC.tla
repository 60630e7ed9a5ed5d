----------------------------- MODULE StationMC -----------------------------
(* Station files read statement by statement, stations copied and changed.   *)
EXTENDS Station, Randomization, Json, IOUtils, CSV
CONSTANTS MaxOps, Emit
VARIABLES tab, said, sts, born, hist, ops
vars == <<tab, said, sts, born, hist, ops>>
One(X) == IF Emit THEN RandomSubset(1, X) ELSE X
Rare(n) == RandomElement(1..n) = 1
S(k, i, v) == [k |-> k, i |-> i, v |-> v]
----------------------------------------------------------------------------
(* The small machine. *)
Head0 == <<S("N_STD", << >>, 2), S("N_FEE", << >>, 2), S("N_RPD", << >>, 4), S("N_ARB", << >>, 1), S("N_ARBCH", << >>, 6), S("N_SNAP", << >>, 2), S("N_SNAPCH", << >>, 3), S("ARB_ID", <<1>>, "343")>>
Pairs == {<<S("SNAP_ANT", <<1, 1>>, 4), S("SNAP_ANT", <<2, 1>>, 1)>>, <<S("SNAP_ANT", <<1, 2>>, 0)>>, <<S("ARB_ANT", <<1, 1>>, 2), S("ARB_ANT", <<1, 2>>, 1)>>, <<S("ARB_ANT", <<1, 3>>, 0)>>,
          <<S("RPD_ANT", <<1>>, 3), S("RPD_ANT", <<3>>, 1)>>, <<S("FEE_ANT1", <<1>>, 3), S("FEE_ANT1", <<2>>, 1)>>, <<S("RPD_VF", << >>, 85000)>>, <<S("RPD_VF", <<2>>, 90000)>>,
          <<S("ASP_AT1", << >>, 3)>>, <<S("ASP_AT1", <<2>>, 5)>>, <<S("ASP_AT3", <<1>>, 2)>>, <<S("STD_LY", <<2>>, 1500)>>, <<S("ANT_STAT", <<3>>, 1)>>, <<S("ANT_STD", <<4>>, 1)>>, <<S("DRX_GAIN", << >>, 6)>>}
Init == tab = (IF Emit THEN Blank ELSE Tables(Head0)) /\ said = << >> /\ sts = << >> /\ born = << >> /\ hist = << >> /\ ops = 0
Say == /\ sts = << >> /\ \E p \in Pairs : tab' = FoldLeft(Read, tab, p) /\ said' = said \o p /\ ops' = ops + 1 /\ UNCHANGED <<sts, born, hist>>
Make == /\ sts = << >> /\ sts' = <<Build(tab)>> /\ born' = <<Build(tab)>> /\ UNCHANGED <<tab, said, hist, ops>>
Clone == /\ sts # << >> /\ Len(sts) < 2 /\ sts' = Append(sts, sts[1]) /\ born' = Append(born, sts[1]) /\ ops' = ops + 1 /\ UNCHANGED <<tab, said, hist>>
Tweak == /\ Len(sts) = 2 /\ \E i \in 1..2, a \in 1..4, w \in {"clk", "stat"} : sts' = [sts EXCEPT ![i].ants[a][w] = 7] /\ ops' = ops + 1 /\ UNCHANGED <<tab, said, born, hist>>
----------------------------------------------------------------------------
(* Behaviours for the code. *)
Text(z_) == RandomElement({"AB1", "x_7", "1_16", "M T 29", "K-9 (Gray)", "0"})
Milli(z_) == RandomElement({0, 1500, -2250, 61875, -34022, 100001, 7})
Idx(n) == <<RandomElement(1..n)>>
Many(n, f(_)) == [i \in 1..RandomElement(0..n) |-> f(i)]
StdStmt(n) == LET k == RandomElement({"STD_LX", "STD_LY", "STD_LZ", "ANT_STD", "ANT_ORIE", "ANT_STAT", "ANT_THETA", "ANT_PHI", "ASP_AT1", "ASP_AT2", "ASP_AT3", "ASP_FLT"}) IN
    IF k \in {"STD_LX", "STD_LY", "STD_LZ"} THEN S(k, Idx(n), Milli(0))
    ELSE IF k \in {"ANT_THETA", "ANT_PHI"} THEN S(k, Idx(2*n), Milli(0))
    ELSE IF k = "ANT_STD" THEN S(k, Idx(2*n), RandomElement(1..n)) ELSE IF k = "ANT_ORIE" THEN S(k, Idx(2*n), RandomElement(0..1))
    ELSE IF k = "ANT_STAT" THEN S(k, Idx(2*n), RandomElement(0..3))
    ELSE IF Rare(4) THEN S(k, << >>, RandomElement(0..15)) ELSE S(k, Idx(n), RandomElement(0..15))
FeeStmt(n) == LET k == RandomElement({"FEE_ID", "FEE_STAT", "FEE_GAI1", "FEE_GAI2", "FEE_DESI"}) IN
    S(k, Idx(n), CASE k = "FEE_ID" -> Text(0) [] k \in {"FEE_STAT", "FEE_DESI"} -> RandomElement(0..3) [] OTHER -> RandomElement({35700, 36125, 0, 34990}))
RpdStmt(n) == LET k == RandomElement({"RPD_ID", "RPD_LENG", "RPD_VF", "RPD_DD", "RPD_A0", "RPD_A1", "RPD_FREF", "RPD_STR", "RPD_STAT", "RPD_DESI"}) IN
    S(k, IF k \in {"RPD_VF", "RPD_DD", "RPD_A0", "RPD_A1", "RPD_FREF", "RPD_STR"} /\ Rare(3) THEN << >> ELSE Idx(n),
      CASE k = "RPD_ID" -> Text(0) [] k \in {"RPD_STAT", "RPD_DESI"} -> RandomElement(0..3) [] k = "RPD_LENG" -> RandomElement({0, 80045, 139000, 1}) [] k = "RPD_FREF" -> RandomElement({10000000, 1000000, 49000000})
        [] k = "RPD_STR" -> RandomElement({1000, 1006, 998}) [] k \in {"RPD_A0", "RPD_A1"} -> RandomElement({0, 185, 428}) [] OTHER -> RandomElement({83000, 85000, 2000, 2400, 90500}))
ArbStmt(n, m) == LET k == RandomElement({"ARB_IN", "ARB_OUT", "ARB_STAT", "ARB_SLOT", "ARB_RACK", "ARB_PORT", "ARB_DESI"}) IN
    IF k \in {"ARB_IN", "ARB_OUT"} THEN S(k, Idx(n) \o Idx(m), Text(0)) ELSE IF k = "ARB_STAT" THEN S(k, Idx(n) \o Idx(m), RandomElement(0..3)) ELSE S(k, Idx(n), RandomElement(1..9))
SnapStmt(n, m) == LET k == RandomElement({"SNAP_INR", "SNAP_INC", "SNAP_STAT", "SNAP_ID", "SNAP_SLOT"}) IN
    IF k \in {"SNAP_INR", "SNAP_INC"} THEN S(k, Idx(n) \o Idx(m), Text(0)) ELSE IF k = "SNAP_STAT" THEN S(k, Idx(n) \o Idx(m), RandomElement(0..3)) ELSE S(k, Idx(n), Text(0))
(* a permutation of the antennas over the cells (n by m), the rest of the cells without an antenna *)

RECURSIVE Draw(_)
Draw(x) == IF x = {} THEN << >> ELSE LET e == RandomElement(x) IN <<e>> \o Draw(x \ {e})
Perm(n) == TLCEval(Draw(1..n))
(* wiring statements: cell number c (1..cells) gets antenna p[c] when that is an antenna, otherwise none *)
Wired(cells, ants, st(_, _)) == LET p == Perm(cells) IN [c \in 1..cells |-> st(c, IF p[c] <= ants THEN p[c] ELSE RandomElement({0, 0, p[c]}))]
Cell(c, m) == LET q == (c - 1) \div m IN <<q + 1, c - q*m>>
Ceil(a, b) == (a + b - 1) \div b
File(z_) ==
    LET n == RandomElement({1, 2, 2, 3, 4})
        m == RandomElement({2, 4, 6})
        am == RandomElement({2, 4, 6})
        na == Ceil(2*n, am) + (IF Rare(3) THEN 1 ELSE 0)
        ns == Ceil(2*n, m) + (IF Rare(3) THEN 1 ELSE 0)
        sec == [std |-> <<S("N_STD", << >>, n)>> \o [i \in 1..RandomElement(3..12) |-> StdStmt(n)],
                fee |-> <<S("N_FEE", << >>, n)>> \o Many(5, LAMBDA i : FeeStmt(n)) \o (IF Rare(2) THEN LET p == Perm(n) q == Perm(n) IN [i \in 1..n |-> S("FEE_ANT1", <<i>>, 2*p[i] - 1)] \o [i \in 1..n |-> S("FEE_ANT2", <<i>>, 2*q[i])] ELSE << >>),
                rpd |-> <<S("N_RPD", << >>, 2*n)>> \o Many(8, LAMBDA i : RpdStmt(2*n)) \o (IF Rare(2) THEN LET p == Perm(2*n) IN [i \in 1..2*n |-> S("RPD_ANT", <<i>>, p[i])] ELSE << >>),
                arb |-> <<S("N_ARB", << >>, na), S("N_ARBCH", << >>, am)>> \o [i \in 1..na |-> S("ARB_ID", <<i>>, RandomElement({"101", "210", "343", "499", "8245"}))] \o Many(8, LAMBDA i : ArbStmt(na, am))
                        \o (IF Rare(2) THEN Wired(na*am, 2*n, LAMBDA c, a : S("ARB_ANT", Cell(c, am), a)) ELSE << >>),
                snap |-> <<S("N_SNAP", << >>, ns), S("N_SNAPCH", << >>, m)>> \o Many(8, LAMBDA i : SnapStmt(ns, m))
                        \o (IF Rare(3) THEN << >> ELSE Wired(ns*m, 2*n, LAMBDA c, a : S("SNAP_ANT", Cell(c, m), a))),
                geo |-> <<S("STATION_ID", << >>, RandomElement({"VL", "NA", "SV", "OV", "ZZ"})), S("GEO_N", << >>, RandomElement({34069, -12500, 0})), S("GEO_E", << >>, RandomElement({-107628, 21250, 179999})), S("GEO_EL", << >>, RandomElement({2133600, 0, 1183480}))>>
                        \o (IF Rare(3) THEN << >> ELSE <<S("DRX_GAIN", << >>, RandomElement(0..12))>>),
                other |-> <<S("N_SERVER", << >>, 2), S("SERVER_ID", <<1>>, "ndp1"), S("N_DR", << >>, 1), S("DR_STAT", <<1>>, 3), S("MCS_CRA", << >>, 1), S("N_SEP", << >>, 2*n), S("SEP_CABL", <<1>>, "x"), S("SEP_LENG", <<2>>, 1500), S("PC_ROT", << >>, 0)>>]
        names == <<"geo", "std", "fee", "rpd", "arb", "snap", "other">>
        o == Perm(7)
        body == FoldLeft(LAMBDA a, i : a \o sec[names[o[i]]], << >>, <<1, 2, 3, 4, 5, 6, 7>>) IN
    TLCEval(<<S("FORMAT_VERSION", << >>, IF Rare(15) THEN RandomElement({9, 11}) ELSE 10)>> \o body \o Many(4, LAMBDA i : StdStmt(n)) \o Many(3, LAMBDA i : RpdStmt(2*n)))
Do(ev) == hist' = Append(hist, ev) /\ ops' = ops + 1 /\ UNCHANGED <<tab, said>>
Parse == Len(sts) < 3 /\ \E f \in {File(ops)} : LET t == Tables(f) IN
         /\ Do([op |-> "parse", how |-> RandomElement({"text", "binary"}), src |-> RandomElement({"path", "handle", "bhandle"}), fill |-> RandomElement({"zero", "def", "junk"}), lines |-> f, tab |-> t])
         /\ sts' = (IF t.ok THEN Append(sts, Len(t.ant)) ELSE sts) /\ UNCHANGED born
Pick == One(DOMAIN sts)
GClone == sts # << >> /\ \E i \in Pick, how \in One({"copy", "deepcopy", "pickle"}) : /\ Do([op |-> "clone", s |-> i, how |-> how]) /\ sts' = (IF how # "copy" /\ Len(sts) < 3 THEN Append(sts, sts[i]) ELSE sts)
          /\ UNCHANGED born
GTweak == sts # << >> /\ \E i \in Pick, w \in One({"clk", "stat", "th", "att", "pos", "min", "gain"}) : /\ Do([op |-> "tweak", s |-> i, a |-> RandomElement(1..sts[i]), w |-> w, v |-> RandomElement({1, 2, 3, 54})]) /\ UNCHANGED <<sts, born>>
GSdm == sts # << >> /\ \E i \in Pick : /\ Do([op |-> "sdm", s |-> i, adopt |-> Rare(3), st |-> [k \in 1..8 |-> RandomElement(0..3)]]) /\ UNCHANGED <<sts, born>>
GAssign == sts # << >> /\ \E i \in Pick : /\ Do([op |-> "assign", s |-> i, p |-> Perm(sts[i])]) /\ UNCHANGED <<sts, born>>
Next == IF Emit THEN ops < MaxOps /\ IF sts = << >> THEN Parse ELSE (Parse \/ GClone \/ GTweak \/ GSdm \/ GAssign)
        ELSE ops < MaxOps /\ (Say \/ Make \/ Clone \/ Tweak)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* Statements about different cells can be made in any order: only the last one about a cell counts. *)
Covers(x, y) == x.k = y.k /\ (x.i = << >> \/ x.i = y.i)
Final == SelectSeq([i \in DOMAIN said |-> <<i, said[i]>>], LAMBDA e : ~\E j \in DOMAIN said : j > e[1] /\ Covers(said[j], e[2]))
Canon == [i \in DOMAIN Final |-> Final[i][2]]
Global(s) == s.i = << >>
OrderFree == ~Emit => \/ tab = FoldLeft(Read, Tables(Head0), Canon)
LastWins == ~Emit => tab = FoldLeft(Read, Tables(Head0), SelectSeq(Canon, Global) \o Reverse(SelectSeq(Canon, LAMBDA s : ~Global(s)))) \/ \E x, y \in ToSet(Canon) : Global(x) /\ ~Global(y) /\ x.k = y.k
(* Every antenna is there once, in the order of the digitizer inputs, and an input says which antenna is on it. *)
WellWired == \A k \in DOMAIN sts : ~Emit =>
    /\ {sts[k].ants[i].id : i \in DOMAIN sts[k].ants} = DOMAIN tab.ant /\ Len(sts[k].ants) = Len(tab.ant)
    /\ \A i \in DOMAIN sts[k].ants : i > 1 => sts[k].ants[i - 1].dig <= sts[k].ants[i].dig
    /\ \A b \in DOMAIN tab.snap : \A c \in DOMAIN tab.snap[b] : LET a == tab.snap[b][c].ant IN
         a \in DOMAIN tab.ant /\ Cardinality({x \in Cells(2, 3) : tab.snap[x[1]][x[2]].ant = a}) = 1 => \E i \in DOMAIN sts[k].ants : sts[k].ants[i].id = a /\ sts[k].ants[i].dig = 3*(b - 1) + c
(* A change to a station changes no other. *)
Apart == [][Len(sts) = 2 /\ Len(sts') = 2 => \E i \in 1..2 : sts'[i] = sts[i]]_vars
ASSUME B!Size(Flat) = 153136 /\ B!Size(B!SETS) = 2598
EmitDone == ops = MaxOps => CSVWrite("%1$s", <<ToJson([ops |-> hist, lay |-> Layout])>>, IOEnv.GEN_OUT)
=============================================================================
