-------------------------------- MODULE Args --------------------------------
(* What the values that a user types on a command line mean.  A text is a sequence of characters. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
Bad == [ok |-> FALSE, v |-> 0]
Good(v) == [ok |-> TRUE, v |-> v]
(* ---- pieces of text ---- *)
RECURSIVE StripL(_)
StripL(s) == IF s # << >> /\ s[1] = " " THEN StripL(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE StripR(_)
StripR(s) == IF s # << >> /\ s[Len(s)] = " " THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == StripL(StripR(s))
Has(s, c) == \E i \in 1..Len(s) : s[i] = c
At(s, c) == CHOOSE i \in 1..Len(s) : s[i] = c /\ \A j \in 1..(i - 1) : s[j] # c
Before(s, c) == SubSeq(s, 1, At(s, c) - 1)
After(s, c) == SubSeq(s, At(s, c) + 1, Len(s))
RECURSIVE Split(_, _)
Split(s, c) == IF Has(s, c) THEN <<Before(s, c)>> \o Split(After(s, c), c) ELSE <<s>>
RECURSIVE Number(_)
Number(s) == IF s = << >> THEN 0 ELSE 10*Number(SubSeq(s, 1, Len(s) - 1)) + DigitVal(s[Len(s)])
Whole(s) == s # << >> /\ \A i \in 1..Len(s) : s[i] \in Digits
(* a whole number, with a sign if need be, with blanks around it *)
IntOf(t) == LET s == Strip(t) IN
            IF s # << >> /\ s[1] = "-" THEN IF Whole(SubSeq(s, 2, Len(s))) THEN Good(-Number(SubSeq(s, 2, Len(s)))) ELSE Bad
            ELSE IF Whole(s) THEN Good(Number(s)) ELSE Bad
(* one number, or the numbers from one to another *)
Item(s) == IF Has(s, "~") THEN LET a == IntOf(Before(s, "~")) b == IntOf(After(s, "~")) IN
                               IF a.ok /\ b.ok THEN Good([i \in 1..(IF b.v >= a.v THEN b.v - a.v + 1 ELSE 0) |-> a.v + i - 1]) ELSE Bad
           ELSE LET a == IntOf(s) IN IF a.ok THEN Good(<<a.v>>) ELSE Bad
Pairs(a, b) == [k \in 1..(Len(a)*Len(b)) |-> <<a[((k - 1) \div Len(b)) + 1], b[((k - 1) % Len(b)) + 1]>>]
(* two antennas, or two sets of them *)
BlItem(s) == IF ~Has(s, "-") THEN Bad
             ELSE LET a == Item(Before(s, "-")) b == Item(After(s, "-")) IN IF a.ok /\ b.ok THEN Good(Pairs(a.v, b.v)) ELSE Bad
RECURSIVE Join(_, _)
Join(items, kind) ==
    IF items = << >> THEN Good(<< >>)
    ELSE LET s == Strip(items[1]) rest == Join(SubSeq(items, 2, Len(items)), kind) IN
         IF s = << >> THEN rest
         ELSE LET x == IF kind = "ints" THEN Item(s) ELSE BlItem(s) IN IF x.ok /\ rest.ok THEN Good(x.v \o rest.v) ELSE Bad
(* the words for nothing and everything *)
WordOf(s) == IF s = << >> \/ s = <<"n", "o", "n", "e">> THEN "none" ELSE IF s = <<"*">> \/ s = <<"a", "l", "l">> THEN "all" ELSE ""
ListOf(s, kind) == Join(Split(s, ","), kind)
----------------------------------------------------------------------------
(* ---- dates, as modified Julian days ---- *)
Days(y, m, d) ==
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        era == yy \div 400
        yoe == yy - 400*era
        mp == IF m > 2 THEN m - 3 ELSE m + 9
        doy == (153*mp + 2) \div 5 + d - 1
        doe == yoe*365 + yoe \div 4 - yoe \div 100 + doy IN
    era*146097 + doe - 678881
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN IF Leap(y) THEN 29 ELSE 28 ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Civil(mjd) == LET z == mjd + 678881
                  era == z \div 146097
                  doe == z - era*146097
                  yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
                  doy == doe - (365*yoe + yoe \div 4 - yoe \div 100)
                  mp == (5*doy + 2) \div 153
                  d == doy - (153*mp + 2) \div 5 + 1
                  m == IF mp < 10 THEN mp + 3 ELSE mp - 9
                  y == yoe + era*400 + (IF m <= 2 THEN 1 ELSE 0) IN <<y, m, d>>
GoodDate(y, m, d) == m \in 1..12 /\ d \in 1..MonthLen(y, m) /\ y \in 1..9999
(* ---- times, as <<milliseconds of the day, microseconds>> ---- *)
GoodClock(h, m, s) == h \in 0..23 /\ m \in 0..59 /\ s \in 0..59
ClockOf(ms, us) == <<ms \div 3600000, (ms \div 60000) % 60, (ms \div 1000) % 60, (ms % 1000)*1000 + us>>
(* ---- frequencies in kHz and wavelengths in mm: one from the other ---- *)
Light == 299792458
Other(x) == Light \div x
Near(a, b) == Abs(a - b) <= 1
Ordered(a, b) == IF a <= b THEN <<a, b>> ELSE <<b, a>>
(* ---- names of computers: [base, from, to] or four ranges ---- *)
Span(r) == [i \in 1..(IF r[2] >= r[1] THEN r[2] - r[1] + 1 ELSE 0) |-> r[1] + i - 1]
RECURSIVE Cross(_)
Cross(rs) == IF rs = << >> THEN << << >> >>
             ELSE LET a == Span(rs[1]) b == Cross(SubSeq(rs, 2, Len(rs))) IN
                  [k \in 1..(Len(a)*Len(b)) |-> <<a[((k - 1) \div Len(b)) + 1]>> \o b[((k - 1) % Len(b)) + 1]]
=============================================================================
