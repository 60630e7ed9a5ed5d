------------------------------- MODULE Scribe -------------------------------
(* What is written down: simulated DRX frames, VDIF frames and SDFITS files.  *)
(* Each has to read back as what was given.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN << >> ELSE LET m == SetMin(S) IN <<m>> \o SortedSeq(S \ {m})
Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 7 -> 128 [] n = 8 -> 256
----------------------------------------------------------------------------
(* ---- DRX: samples are given in quarters ---- *)
(* to the nearest whole number, halves to the even one *)
Nearest(q) == LET f == q \div 4 r == q % 4 IN IF r < 2 THEN f ELSE IF r > 2 THEN f + 1 ELSE IF f % 2 = 0 THEN f ELSE f + 1
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
FourBits(q) == Clip(Nearest(q), -8, 7)
GoodDrx(p) == p.beam \in 1..4 /\ p.tune \in 1..2 /\ p.pol \in 0..1 /\ p.len = 4096 /\ p.kind \in {"c64", "c128", "ci8"}
(* the test signal: for every frame, beam, tuning and polarization [frame, beam, tune, pol, tone], a tone being a bin of 4096 *)
Decimation(code) == CASE code = 1 -> 784 [] code = 2 -> 392 [] code = 3 -> 196 [] code = 4 -> 98 [] code = 5 -> 40 [] code = 6 -> 20 [] code = 7 -> 10
Tone(tune, pol) == IF tune = 1 THEN IF pol = 0 THEN {1024} ELSE {3072} ELSE IF pol = 0 THEN {2730, 2731} ELSE {1365, 1366}
Stream(beams, ntune, nframes) == [i \in 1..(nframes*Len(beams)*ntune*2) |->
    LET per == Len(beams)*ntune*2 k == (i - 1) % per IN
    [n |-> (i - 1) \div per, beam |-> beams[(k \div (2*ntune)) + 1], tune |-> ((k \div 2) % ntune) + 1, pol |-> k % 2]]
----------------------------------------------------------------------------
(* ---- VDIF: the calendar, days as modified Julian dates ---- *)
DaysFromCivil(y, m, d) ==
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        era == yy \div 400
        yoe == yy - 400*era
        mp == IF m > 2 THEN m - 3 ELSE m + 9
        doy == (153*mp + 2) \div 5 + d - 1
        doe == yoe*365 + yoe \div 4 - yoe \div 100 + doy IN
    era*146097 + doe - 678881
(* the half year that a day belongs to, counted from 2000, and when it starts *)
Starts(e) == DaysFromCivil(2000 + e \div 2, IF e % 2 = 0 THEN 1 ELSE 7, 1)
HalfYear(day) == CHOOSE e \in 0..63 : Starts(e) <= day /\ day < Starts(e + 1)
VSeconds(day, sec) == (day - Starts(HalfYear(day)))*86400 + sec
(* the level of a value *)
Level(v, bits) == v + Pow2(bits - 1)
VBytes(n, cplx, bits) == (n*(IF cplx THEN 2 ELSE 1)*bits) \div 8
----------------------------------------------------------------------------
(* ---- SDFITS: spectra added as [t, pol, beams, id]; a value is id*1000 + beam*20 + channel ---- *)
Stokes(set) == IF \E p \in set : p < 0 THEN LET s == SortedSeq({-p : p \in set}) IN [i \in 1..Len(s) |-> -s[i]] ELSE SortedSeq(set)
Times(adds) == SortedSeq({adds[i].t : i \in 1..Len(adds)})
At(adds, t, pol) == {i \in 1..Len(adds) : adds[i].t = t /\ adds[i].pol = pol}
Val(id, b, c) == id*1000 + b*20 + c
BeamsOf(a) == {a.beams[j] : j \in 1..Len(a.beams)}
(* the rows: for every time, for every beam of the first polarization *)
Cells(adds, st, t, b, nchan) == [k \in 1..(Len(st)*nchan) |->
    LET p == st[((k - 1) \div nchan) + 1] c == (k - 1) % nchan IN
    LET S == {i \in At(adds, t, p) : b \in BeamsOf(adds[i])} IN IF S = {} THEN 0 ELSE Val(adds[CHOOSE i \in S : TRUE].id, b, c)]
RECURSIVE RowsFrom(_, _, _, _, _)
RowsFrom(adds, st, ts, k, nchan) ==
    IF k > Len(ts) THEN << >>
    ELSE LET t == ts[k] a == adds[CHOOSE i \in At(adds, t, st[1]) : TRUE] bs == SortedSeq(BeamsOf(a)) IN
         [j \in 1..Len(bs) |-> [scan |-> k, t |-> t, beam |-> bs[j], exp |-> a.exp, data |-> Cells(adds, st, t, bs[j], nchan)]] \o RowsFrom(adds, st, ts, k + 1, nchan)
Rows(adds, st, nchan) == RowsFrom(adds, st, Times(adds), 1, nchan)
=============================================================================
