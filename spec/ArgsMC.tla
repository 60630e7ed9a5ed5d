------------------------------- MODULE ArgsMC -------------------------------
EXTENDS Args, Randomization, Json, IOUtils, CSV
CONSTANTS MaxLen, MaxOps, Emit, Letters
VARIABLES text, hist, ops
vars == <<text, hist, ops>>
R(a, b) == RandomElement(a..b)
Rare(n) == RandomElement(1..n) = 1
H(e) == hist' = Append(hist, e)
----------------------------------------------------------------------------
(* ---- the texts: every sequence of these characters, letter by letter ---- *)
Chars == IF Letters = 1 THEN {"1", "2", "3", "~", ",", "-", " "} ELSE {"0", "1", "~", ",", "-", " ", "*", "x"}
Type == Emit # "ops" /\ Len(text) < MaxLen /\ (\E c \in Chars : text' = Append(text, c)) /\ UNCHANGED <<hist, ops>>
----------------------------------------------------------------------------
(* ---- the other values ---- *)
GNum(o) == [op |-> "num", fn |-> RandomElement({"positive_int", "positive_or_zero_int", "positive_float", "positive_or_zero_float"}), n |-> RandomElement({0, 1, -1, R(-1000, 100000), R(0, 100000)}), form |-> RandomElement({"plain", "blank", "zeros", "exp", "word", "empty", "half", "nan", "hex"})]
GFreq(o) == [op |-> "freq", a |-> R(1000, 100000), b |-> R(1000, 100000), unit |-> RandomElement({"", "Hz", "kHz", "MHz", "GHz", "mm", "m", "cm"}), fn |-> RandomElement({"frequency", "wavelength"}), range |-> RandomElement({TRUE, FALSE}), asked |-> RandomElement({TRUE, FALSE}),
             form |-> RandomElement({"both", "both", "second", "first", "none", "word"}), space |-> RandomElement({TRUE, FALSE})]
GDay(o) == [op |-> "day", y |-> R(1900, 2100), m |-> RandomElement((1..12) \cup {2, 12, 13, 0}), d |-> RandomElement({1, 28, 29, 30, 31, R(1, 31), 0, 32}), form |-> RandomElement({"-", "/", "-", "/", "mjd", "short", "word"}), fn |-> RandomElement({"date", "mjd"})]
GClock(o) == [op |-> "clock", h |-> RandomElement({0, 23, R(0, 23), R(0, 23), 24}), m |-> RandomElement({0, 59, R(0, 59), R(0, 59), 60}), s |-> RandomElement({0, 59, R(0, 59), R(0, 59), 61}), ms |-> RandomElement({0, 1, 999, R(0, 999)}), us |-> RandomElement({0, 1, 999, 500, R(0, 999)}),
              form |-> RandomElement({"mpm", "mpm", "hms", "hms.f", "hms.f", "short", "word", "late", "neg"}), fn |-> RandomElement({"time", "mpm"})]
GAngle(o) == [op |-> "angle", list |-> [i \in 1..R(0, 3) |-> [deg |-> RandomElement({0, R(0, 89)}), min |-> R(0, 59), sec |-> R(0, 59), neg |-> RandomElement({TRUE, FALSE})]], fn |-> RandomElement({"hours", "degrees"}), sep |-> RandomElement({",", ", ", " ,", ",,"}), tail |-> RandomElement({"", ",", ", ", " "}), form |-> RandomElement({"dms", "dm", "d", "dms"}), bad |-> Rare(6)]
GHost(o) == [op |-> "host", items |-> [i \in 1..R(0, 3) |-> [ip |-> RandomElement({TRUE, FALSE}), base |-> RandomElement({"node", "lwa-", "a"}), r |-> [k \in 1..4 |-> (LET a == R(0, 12) IN <<a, a + RandomElement({0, 0, 1, 2})>>)], kind |-> RandomElement({"one", "range", "bare", "range"})]],
             sep |-> RandomElement({",", ", ", ",,"}), bad |-> RandomElement({"", "", "", "", "dot", "tilde"})]
Do == Emit = "ops" /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED text
      /\ \E w \in {R(1, 6)} : CASE w = 1 -> (\E e \in {GNum(ops)} : H(e)) [] w = 2 -> (\E e \in {GFreq(ops)} : H(e)) [] w = 3 -> (\E e \in {GDay(ops)} : H(e))
                                 [] w = 4 -> (\E e \in {GClock(ops)} : H(e)) [] w = 5 -> (\E e \in {GAngle(ops)} : H(e)) [] w = 6 -> (\E e \in {GHost(ops)} : H(e))
Next == Type \/ Do
Init == text = << >> /\ hist = << >> /\ ops = 0
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* ---- of every text ---- *)
Ok(k) == ListOf(text, k).ok /\ WordOf(text) = ""
(* a comma at an end changes nothing, nor do blanks around it; twice the text is the list twice *)
Blind == \A k \in {"ints", "bls"} : Ok(k) => LET v == ListOf(text, k).v IN
            /\ ListOf(Append(text, ","), k) = Good(v) /\ ListOf(<<",">> \o text, k) = Good(v) /\ ListOf(<<" ">> \o text \o <<" ", ",", " ">>, k) = Good(v)
            /\ ListOf(text \o <<",">> \o text, k) = Good(v \o v)
(* what has been refused cannot be mended with a comma *)
Firm == \A k \in {"ints", "bls"} : (~ListOf(text, k).ok) => ~ListOf(Append(text, ","), k).ok
(* the same text is never good for both but for commas and blanks, or a sign *)
Apart == (Ok("ints") /\ Ok("bls") /\ ~Has(text, "-")) => \A i \in 1..Len(text) : text[i] \in {",", " "}
(* a list of single numbers, written down, is that list *)
Digit(n) == CASE n = 0 -> "0" [] n = 1 -> "1" [] n = 2 -> "2" [] n = 3 -> "3"
RECURSIVE Render(_)
Render(v) == IF v = << >> THEN << >> ELSE (IF v[1] < 0 THEN <<"-", Digit(-v[1])>> ELSE <<Digit(v[1])>>) \o <<",">> \o Render(SubSeq(v, 2, Len(v)))
Again == (Ok("ints") /\ \A i \in 1..Len(ListOf(text, "ints").v) : ListOf(text, "ints").v[i] \in -3..3) => LET v == ListOf(text, "ints").v IN v # << >> => ListOf(Render(v), "ints") = Good(v)
ASSUME \A mjd \in {40587, 51544, 58849, 60000, 60369, 60370} : LET c == Civil(mjd) IN GoodDate(c[1], c[2], c[3]) /\ Days(c[1], c[2], c[3]) = mjd
ASSUME Civil(60000) = <<2023, 2, 25>> /\ Days(2024, 2, 29) = 60369 /\ ~GoodDate(2023, 2, 29) /\ GoodDate(2000, 2, 29)
ASSUME Cross(<< <<1, 2>>, <<5, 6>> >>) = << <<1, 5>>, <<1, 6>>, <<2, 5>>, <<2, 6>> >>
EmitText == (Emit = "text") => CSVWrite("%1$s", <<ToJson([text |-> text])>>, IOEnv.GEN_OUT)
EmitDone == (Emit = "ops" /\ ops = MaxOps) => CSVWrite("%1$s", <<ToJson([ops |-> hist])>>, IOEnv.GEN_OUT)
=============================================================================
