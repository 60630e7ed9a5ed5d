------------------------------ MODULE ScribeMC ------------------------------
EXTENDS Scribe, Randomization, Json, IOUtils, CSV
CONSTANTS MaxOps, Emit
VARIABLES hist, ops, word, day, added
vars == <<hist, ops, word, day, added>>
One(X) == IF Emit THEN RandomSubset(1, X) ELSE X
Rare(n) == RandomElement(1..n) = 1
H(e) == hist' = Append(hist, e)
R(a, b) == RandomElement(a..b)
----------------------------------------------------------------------------
(* ---- generation ---- *)
GDrx(o) == [op |-> "drx", beam |-> RandomElement({1, 2, 3, 4, 1, 2, 3, 4, 0, 5, 8, 9, 12}), tune |-> RandomElement({1, 2, 1, 2, 1, 2, 0, 3, 4, 9}), pol |-> RandomElement({0, 1, 0, 1, 0, 1, 2, 3}),
            dec |-> RandomElement({10, 20, 40, 98, 196, 392, 784, 1}), toff |-> RandomElement({0, 1, 255, 256, 65535, R(0, 65535)}), tt |-> [i \in 1..4 |-> RandomElement({0, 1, 65535, 32768, R(0, 65535)})],
            flags |-> [i \in 1..4 |-> RandomElement({0, 65535, R(0, 65535)})], kind |-> RandomElement({"c64", "c128", "ci8", "c64", "ci8", "f"}), len |-> RandomElement({4096, 4096, 4096, 4096, 4096, 4095, 4097})]
GStream(o) == [op |-> "stream", beams |-> RandomElement({<<1>>, <<2, 3>>, <<4, 1, 2>>, <<3>>}), ntune |-> R(1, 2), nframes |-> R(1, 4), filter |-> R(1, 7), start |-> RandomElement({1, 1000000000, 1700000000, R(1, 2000000000)}), half |-> R(0, 3)]
(* days that end with a leap second: UNIX times are not uniform on them *)
LeapDays == {53735, 54831, 56108, 57203, 57753}
NotLeap(d) == IF d \in LeapDays THEN d + 1 ELSE d
GVdif(o) == LET n == RandomElement({64, 128}) IN
            [op |-> "vdif", n |-> n, bits |-> RandomElement({1, 2, 4, 8}), cplx |-> RandomElement({TRUE, FALSE}), stand |-> RandomElement({0, 1, 255, 256, 65535, R(0, 65535)}),
             frate |-> RandomElement({125, 250, 1000, 5000, 25000, 62500, 200000, 1000000}), day |-> NotLeap(LET e == R(0, 59) IN RandomElement({Starts(e), Starts(e) + 1, Starts(e + 1) - 1, R(51544, 62502)})),
             sec |-> RandomElement({0, 1, 86399, 620, R(0, 86399), R(0, 86399)}), k |-> RandomElement({0, 1, -1, R(0, 100000)}), how |-> RandomElement({"pair", "float", "stamp", "less"}), sq |-> RandomElement({TRUE, FALSE}), dt |-> R(0, 3)]
Pols == {{-5}, {-5, -6}, {-5, -6, -7, -8}, {1}, {1, 2, 3, 4}, {1, 4}, {-1, -2}}
GSd(o) == [op |-> "sd", pols |-> RandomElement(Pols), nchan |-> R(2, 6), beams |-> RandomElement({{1}, {2, 3}, {1, 2, 4}}), nt |-> R(1, 6), gap |-> RandomElement({5, 10, 20, 26, 61, 1000, 60000}), start |-> RandomElement({0, 1, 86399, 43200, R(0, 86399)}),
           sub |-> RandomElement({0, 500, 999}), day |-> NotLeap(R(55000, 60500)), form |-> RandomElement({"mjd", "astropy", "stamp"}), named |-> RandomElement({TRUE, FALSE}), mix |-> RandomElement({"in", "shuffle", "bypol", "back"}), fewer |-> Rare(4), seed |-> R(1, 100000),
           notes |-> R(0, 2), keys |-> R(0, 2)]
----------------------------------------------------------------------------
(* ---- the small machine: a clock of half years and a word that fills with samples ---- *)
Step == /\ day' \in {IF day + k > 63000 THEN 51544 + ((day + k) % 200) ELSE day + k : k \in {1, 181}}
        /\ word' \in 0..15
        /\ UNCHANGED added
(* and a table that spectra are added to, in any order *)
Spectra == << <<10, -5>>, <<10, -6>>, <<20, -5>>, <<20, -6>>, <<30, -5>>, <<30, -6>> >>
Adds(sq) == [i \in 1..Len(sq) |-> [t |-> Spectra[sq[i]][1], pol |-> Spectra[sq[i]][2], beams |-> IF sq[i] = 4 THEN <<1>> ELSE <<3, 1>>, id |-> sq[i], exp |-> 1]]
Add == /\ day = 51544 /\ word = 0 /\ UNCHANGED <<day, word>>
       /\ \E k \in 1..6 : (\A i \in 1..Len(added) : added[i] # k) /\ added' = Append(added, k)
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ IF Emit THEN UNCHANGED <<word, day, added>> /\ (\E w \in {RandomElement(1..9)} : IF w = 9 THEN \E g \in {GStream(ops)} : H(g) ELSE IF w \in 1..2 THEN \E d \in {GDrx(ops)} : H(d) ELSE IF w \in 3..4 THEN \E s \in {GSd(ops)} : H(s) ELSE \E v \in {GVdif(ops)} : H(v))
           ELSE (IF added = << >> THEN Step \/ Add ELSE Add) /\ UNCHANGED hist
Init == hist = << >> /\ ops = 0 /\ word = 0 /\ day = 51544 /\ added = << >>
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* the half year of a day and the second in it name the day and nothing else; a half year has room for its seconds in 30 bits *)
Clock == LET e == HalfYear(day) IN Starts(e) <= day /\ day < Starts(e + 1) /\ VSeconds(day, 86399) < 184*86400 + 1 /\ Starts(e) + VSeconds(day, 5) \div 86400 = day
(* four bits: what fits is kept, what does not is the nearest that does, and the order stays *)
FourOK == LET v == word - 8 IN FourBits(4*v) = v /\ \A q \in -50..50 : FourBits(q) \in -8..7 /\ FourBits(q) <= FourBits(q + 1) /\ (Abs(q) <= 28 => Abs(4*FourBits(q) - q) <= 2)
ASSUME \A b \in {1, 2, 4, 8} : {Level(v, b) : v \in (-Pow2(b - 1))..(Pow2(b - 1) - 1)} = 0..(Pow2(b) - 1)
(* no two frames of a stream are the same *)
ASSUME LET st == Stream(<<4, 1, 2>>, 2, 3) IN \A i, j \in 1..Len(st) : i # j => st[i] # st[j]
(* every value of a complete set of spectra is in just one place, whatever the order in which they were added *)
Sets == << <<1, -5>>, <<1, -6>>, <<2, -5>>, <<2, -6>> >>
ASSUME \A f \in Permutations(1..4) :
    LET adds == [i \in 1..4 |-> [t |-> Sets[f[i]][1], pol |-> Sets[f[i]][2], beams |-> <<3, 1>>, id |-> f[i], exp |-> 1]]
        rows == Rows(adds, Stokes({-5, -6}), 2) IN
    Len(rows) = 4 /\ rows[1].data = <<Val(1, 1, 0), Val(1, 1, 1), Val(2, 1, 0), Val(2, 1, 1)>> /\ rows[4].data = <<Val(3, 3, 0), Val(3, 3, 1), Val(4, 3, 0), Val(4, 3, 1)>>
ASSUME Stokes({-8, -5, -7, -6}) = <<-5, -6, -7, -8>> /\ Stokes({4, 1}) = <<1, 4>>
(* the first polarization of every time that was added is there: then the rows are in order of time and beam, every value added is in just one place and what was not added is zero *)
Complete(sq) == \A i \in 1..Len(sq) : (sq[i] % 2 = 0) => \E j \in 1..Len(sq) : sq[j] = sq[i] - 1
Table == (added # << >> /\ Complete(added)) =>
    LET adds == Adds(added) st == Stokes({-5, -6}) rows == Rows(adds, st, 2)
        where(v) == {<<i, k>> \in (1..Len(rows)) \X (1..4) : rows[i].data[k] = v}
        vals == {Val(adds[i].id, b, c) : i \in 1..Len(adds), b \in {1, 3}, c \in 0..1} IN
    /\ \A i, j \in 1..Len(rows) : i < j => rows[i].t < rows[j].t \/ (rows[i].t = rows[j].t /\ rows[i].beam < rows[j].beam /\ rows[i].scan = rows[j].scan)
    /\ \A i \in 1..Len(adds) : \A b \in {1, 3} : \A c \in 0..1 : Cardinality(where(Val(adds[i].id, b, c))) = (IF b \in BeamsOf(adds[i]) THEN 1 ELSE 0)
    /\ \A i \in 1..Len(rows) : \A k \in 1..4 : rows[i].data[k] \in vals \cup {0}
EmitDone == ops = MaxOps => CSVWrite("%1$s", <<ToJson([ops |-> hist])>>, IOEnv.GEN_OUT)
=============================================================================
