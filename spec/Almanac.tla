------------------------------ MODULE Almanac ------------------------------
(* Dates, clocks and time scales: an instant is a UTC day (modified Julian    *)
(* date), a second of that day and a microsecond.  Every form that the        *)
(* package has for an instant is a way of writing it down, and a conversion   *)
(* changes the form and never the instant, up to what a double can hold.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
(* ---- the calendar (proleptic Gregorian), days as modified Julian dates ---- *)
DaysFromCivil(y, m, d) ==
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        era == yy \div 400
        yoe == yy - 400*era
        mp == IF m > 2 THEN m - 3 ELSE m + 9
        doy == (153*mp + 2) \div 5 + d - 1
        doe == yoe*365 + yoe \div 4 - yoe \div 100 + doy IN
    era*146097 + doe - 678881
CivilFromDays(n) ==
    LET z == n + 678881
        era == z \div 146097
        doe == z - era*146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365*yoe + yoe \div 4 - yoe \div 100)
        mp == (5*doy + 2) \div 153
        d == doy - (153*mp + 2) \div 5 + 1
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9 IN
    <<yoe + era*400 + (IF m <= 2 THEN 1 ELSE 0), m, d>>
IsLeap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
WeekDay(day) == (day + 3) % 7                    \* 0 is Sunday
(* ---- UTC and TAI: the day from which a difference holds ---- *)
LeapTable == <<41317, 41499, 41683, 42048, 42413, 42778, 43144, 43509, 43874, 44239, 44786, 45151, 45516, 46247, 47161, 47892, 48257, 48804, 49169, 49534, 50083, 50630, 51179, 53736, 54832, 56109, 57204, 57754>>
Leaps(day) == 9 + Cardinality({k \in DOMAIN LeapTable : LeapTable[k] <= day})
LongDay(day) == \E k \in DOMAIN LeapTable : k > 1 /\ LeapTable[k] = day + 1     \* it has 86401 seconds
(* ---- instants ---- *)
I3(d, s, u) == LET s2 == s + u \div 1000000 IN <<d + s2 \div 86400, s2 % 86400, u % 1000000>>
Shift(t, s, u) == I3(t[1], t[2] + s, t[3] + u)
(* a - b in microseconds, no more than 1000 seconds counted *)
Apart(a, b) == IF Abs(a[1] - b[1]) > 1 THEN 2000000000
               ELSE LET s == (a[1] - b[1])*86400 + a[2] - b[2] IN IF Abs(s) > 1000 THEN 2000000000 ELSE Abs(s*1000000 + a[3] - b[3])
(* ---- the forms ---- *)
DayForms == {"jd", "mjd", "taijd", "taimjd", "ttjd", "tdbjd"}
Forms == DayForms \cup {"unix", "date", "zone", "dt", "mjdmpm"}
Scale(f) == CASE f \in {"taijd", "taimjd"} -> "tai" [] f = "ttjd" -> "tt" [] f = "tdbjd" -> "tdb" [] OTHER -> "utc"
(* what the clock of a scale reads at an instant *)
Reading(f, t) == CASE Scale(f) = "utc" -> t [] Scale(f) = "tai" -> Shift(t, Leaps(t[1]), 0) [] OTHER -> Shift(t, Leaps(t[1]) + 32, 184000)
(* the instant that calendar fields name *)
Named(y, mo, d, h, mi, s, us, off) == I3(DaysFromCivil(y, mo, d), h*3600 + mi*60 + s - off, us)
Fields(t, off) == LET u == Shift(t, off, 0) c == CivilFromDays(u[1]) IN <<c[1], c[2], c[3], u[2] \div 3600, (u[2] \div 60) % 60, u[2] % 60, u[3]>>
(* what a double of the form cannot tell apart, in microseconds: 2.4e6 days leave 40 us *)
Grain(f) == CASE f \in {"jd", "taijd", "ttjd", "tdbjd"} -> 45 [] f \in {"mjd", "taimjd"} -> 3 [] f \in {"unix", "date", "zone"} -> 2 [] OTHER -> 0
(* TDB wanders about TT by no more than 1.7 ms *)
Wander(f) == IF f = "tdbjd" THEN 1800 ELSE 0
(* on a day with a leap second a JD is stretched: the clock of a UTC day form differs by up to a second *)
Stretch(t) == IF LongDay(t[1]) \/ LongDay(t[1] - 1) \/ LongDay(t[1] + 1) THEN 1000100 ELSE 0
(* ---- the conversions: name -> <<from, to>> ---- *)
Conv == [date_to_jd |-> <<"date", "jd">>, get_julian_day |-> <<"date", "jd">>, get_date |-> <<"jd", "date">>, to_zone |-> <<"date", "zone">>, date_to_zonedate |-> <<"date", "zone">>,
         to_date |-> <<"zone", "date">>, zonedate_to_date |-> <<"zone", "date">>, zone_to_jd |-> <<"zone", "jd">>, get_julian_local_date |-> <<"zone", "jd">>,
         get_timet_from_julian |-> <<"jd", "unix">>, utcjd_to_unix |-> <<"jd", "unix">>, get_julian_from_timet |-> <<"unix", "jd">>, unix_to_utcjd |-> <<"unix", "jd">>,
         jd_to_mjd |-> <<"jd", "mjd">>, mjd_to_jd |-> <<"mjd", "jd">>, utc_to_tai |-> <<"jd", "taijd">>, tai_to_utc |-> <<"taijd", "jd">>, taimjd_to_utcjd |-> <<"taimjd", "jd">>,
         utcjd_to_taimjd |-> <<"jd", "taimjd">>, unix_to_taimjd |-> <<"unix", "taimjd">>, taimjd_to_unix |-> <<"taimjd", "unix">>, tai_to_tt |-> <<"taijd", "ttjd">>, tt_to_tai |-> <<"ttjd", "taijd">>,
         utc_to_tt |-> <<"jd", "ttjd">>, tt_to_utc |-> <<"ttjd", "jd">>, tt_to_tdb |-> <<"ttjd", "tdbjd">>, jd_to_mjd_tai |-> <<"taijd", "taimjd">>, mjd_to_jd_tai |-> <<"taimjd", "taijd">>,
         datetime_to_mjdmpm |-> <<"dt", "mjdmpm">>, mjdmpm_to_datetime |-> <<"mjdmpm", "dt">>,
         date_text |-> <<"date", "date">>, date_pickle |-> <<"date", "date">>, date_repr |-> <<"date", "date">>, zone_pickle |-> <<"zone", "zone">>, zone_repr |-> <<"zone", "zone">>]
Leaves(c) == Conv[c][1]
Reaches(c) == Conv[c][2]
(* the time scales other than UTC are for the days since 1972 *)
Early(t) == t[1] < 41318
(* (the text of a date with 59.9996 s says 60.000) *)
(* (a leap second has no date, and a stretched clock gets into it early) *)
NearLeap(t) == (LongDay(t[1]) /\ t[2] > 86390) \/ (LongDay(t[1] - 1) /\ t[2] < 10)
Allowed(c, t) == (c = "get_date" => ~NearLeap(t)) /\ (Scale(Reaches(c)) # "utc" => ~Early(t) /\ t[1] < 64000) /\ (c = "date_text" => ~(t[2] % 60 = 59 /\ t[3] >= 999000) /\ ~(t[2] % 60 = 0 /\ t[3] < 600) /\ Stretch(t) = 0)
(* milliseconds are all that the text of a date and the milliseconds past midnight hold *)
Milli(t) == <<t[1], t[2], t[3] - (t[3] % 1000)>>
Held(c, t) == IF c = "datetime_to_mjdmpm" THEN Milli(t) ELSE t
Cost(c, t) == Grain(Reaches(c)) + Wander(Reaches(c)) + (IF c = "date_text" THEN 502 ELSE 0)
              + (IF Reaches(c) \in DayForms \cup {"unix"} \/ Leaves(c) \in DayForms \cup {"unix"} THEN Stretch(t) ELSE 0)
=============================================================================
