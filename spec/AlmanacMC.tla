----------------------------- MODULE AlmanacMC -----------------------------
EXTENDS Almanac, Randomization, Json, IOUtils, CSV
CONSTANTS MaxOps, Emit, Span
VARIABLES t, form, off, noise, slack, hist, ops
vars == <<t, form, off, noise, slack, hist, ops>>
One(X) == IF Emit THEN RandomSubset(1, X) ELSE X
Rare(n) == RandomElement(1..n) = 1
MCSpan == 15020..88000
GenSpan == 51500..51700
----------------------------------------------------------------------------
(* The small machine: an instant carried from form to form, each double rounding up or down by its grain. *)
Small == {<<57753, 86399, 999999>>, <<57754, 0, 0>>, <<41316, 43200, 500000>>, <<58848, 86399, 999600>>, <<51603, 1, 12>>}
Offs == {0, -25200, 43200, 20700}
Convs == DOMAIN Conv
----------------------------------------------------------------------------
(* Behaviours for the code. *)
Day(z_) == CASE Rare(3) -> LeapTable[RandomElement(DOMAIN LeapTable)] + RandomElement(-2..1)
             [] Rare(3) -> DaysFromCivil(RandomElement({1900, 1904, 1972, 1980, 1999, 2000, 2001, 2020, 2023, 2024, 2038, 2096, 2100}), RandomElement({1, 2, 3, 12}), RandomElement({1, 28})) + RandomElement(0..4)
             [] Rare(6) -> RandomElement(15020..36933)
             [] OTHER -> RandomElement(41319..63000)
Sec(z_) == CASE Rare(4) -> 0 [] Rare(4) -> 86399 [] Rare(6) -> 43200 [] Rare(4) -> 60*RandomElement(0..1439) + RandomElement({0, 59}) [] OTHER -> RandomElement(0..86399)
Us(z_) == CASE Rare(3) -> 0 [] Rare(3) -> RandomElement({500, 499, 999499, 999500, 999600, 999900, 1000, 1999, 500000}) [] Rare(3) -> 1000*RandomElement(0..999) [] OTHER -> RandomElement(0..999999)
Off(z_) == RandomElement({0, -25200, -21600, 43200, -43200, 20700, -12600, 3600, -1, 86399 - 43200})
First == {"date", "zone", "jd", "unix", "dt", "mjdmpm", "mjd", "taijd", "taimjd", "ttjd"}
Start0(z_) == LET d == TLCEval(Day(z_)) IN <<IF d \in 36934..41316 THEN d - 5500 ELSE d, Sec(z_), Us(z_)>>
Init == /\ t = (IF Emit THEN <<58848, 0, 0>> ELSE <<58848, 86399, 999600>>) /\ form = "none" /\ off = 0 /\ noise = 0 /\ slack = 0 /\ hist = << >> /\ ops = 0
New == /\ form = "none" \/ (Emit /\ Rare(7))
       /\ IF Emit THEN \E u \in {Start0(ops)} : \E f \in One(IF Early(u) THEN {"date", "zone", "jd", "unix", "dt", "mjdmpm"} ELSE First) : \E o \in {IF f \in {"zone", "dt"} THEN Off(ops) ELSE 0} :
                       LET w == IF f = "mjdmpm" THEN Milli(u) ELSE IF f \in DayForms /\ LongDay(u[1]) THEN <<u[1] - 2, u[2], u[3]>> ELSE u IN
                       /\ t' = w /\ form' = f /\ off' = o
                       /\ hist' = Append(hist, [op |-> "new", f |-> f, t |-> w, off |-> o, how |-> RandomElement({"naive", "aware"})])
                       /\ slack' = 0 /\ noise' = 0
          ELSE \E u \in Small, f \in {"date", "jd", "dt"} : t' = u /\ form' = f /\ slack' = Grain(f) /\ noise' = 0 /\ UNCHANGED <<off, hist>>
       /\ ops' = ops + 1
Convert == /\ form # "none"
           /\ \E c \in One({c \in Convs : Leaves(c) = form /\ Allowed(c, t)}) : \E o \in (IF Emit THEN {Off(ops)} ELSE {0}) :
                /\ form' = Reaches(c) /\ t' = Held(c, t)
                /\ off' = (IF c \in {"to_zone", "date_to_zonedate", "mjdmpm_to_datetime"} THEN o ELSE IF c \in {"zone_pickle", "zone_repr"} THEN off ELSE 0)
                /\ (IF Emit THEN slack' = 0 /\ noise' = 0 ELSE /\ slack' = slack + Cost(c, t) /\ noise' \in {noise - Grain(Reaches(c)), noise, noise + Grain(Reaches(c))})
                /\ hist' = (IF Emit THEN Append(hist, [op |-> "conv", c |-> c, off |-> o]) ELSE hist)
                /\ ops' = ops + 1
Ask == /\ Emit /\ form \in {"date", "zone", "jd"}
       /\ hist' = Append(hist, [op |-> "ask", q |-> RandomElement(IF form = "jd" THEN {"leap"} ELSE {"week", "cmp"}), d |-> RandomElement({0, 1, -1, 1000, -86400, 3600}), off |-> Off(ops)])
       /\ ops' = ops + 1 /\ UNCHANGED <<t, form, off, noise, slack>>
Next == ops < MaxOps /\ (New \/ Convert \/ Ask)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* The calendar names every day once and in order, and the months are as long as months are. *)
CalendarOk == \A n \in Span : LET c == CivilFromDays(n) e == CivilFromDays(n + 1) IN
    /\ DaysFromCivil(c[1], c[2], c[3]) = n
    /\ e = (IF c[3] < MonthLen(c[1], c[2]) THEN <<c[1], c[2], c[3] + 1>> ELSE IF c[2] < 12 THEN <<c[1], c[2] + 1, 1>> ELSE <<c[1] + 1, 1, 1>>)
ASSUME CalendarOk
ASSUME DaysFromCivil(1858, 11, 17) = 0 /\ DaysFromCivil(1970, 1, 1) = 40587 /\ DaysFromCivil(2000, 1, 1) = 51544
ASSUME \A k \in DOMAIN LeapTable : LET c == CivilFromDays(LeapTable[k]) IN c[3] = 1 /\ c[2] \in {1, 7}
ASSUME Leaps(41317) = 10 /\ Leaps(57753) = 36 /\ Leaps(57754) = 37 /\ WeekDay(58849) = 3
(* A chain of conversions reads the instant within its accumulated slack, and fields name the instant they were made from. *)
Faithful == ~Emit => Abs(noise) <= slack
SameInstant == \A o \in Offs : LET f == Fields(t, o) IN Named(f[1], f[2], f[3], f[4], f[5], f[6], f[7], o) = t /\ f[4] \in 0..23 /\ f[5] \in 0..59 /\ f[6] \in 0..59 /\ f[3] \in 1..MonthLen(f[1], f[2])
(* TAI never goes back: later UTC seconds are later TAI seconds. *)
TaiMonotone == LET u == Shift(t, 1, 0) a == Reading("taijd", t) b == Reading("taijd", u) IN ~Early(t) => Apart(b, a) \in {1000000, 2000000}
EmitDone == ops = MaxOps => CSVWrite("%1$s", <<ToJson([ops |-> hist])>>, IOEnv.GEN_OUT)
=============================================================================
