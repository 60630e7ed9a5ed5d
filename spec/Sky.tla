-------------------------------- MODULE Sky --------------------------------
(* Angles, positions and frames.  An angle is a whole number of hundredths of *)
(* a second of arc.  An angle keeps its value in every form; a position keeps *)
(* to the range of its coordinates; a direction carried through any chain of  *)
(* frames has the same coordinates each time it comes to the same frame.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

DEG == 360000
C == 360*DEG
Q == 90*DEG
Abs(x) == IF x < 0 THEN -x ELSE x
Wrap(x) == x % C                                  \* [0, C)
Gap(x, y) == LET d == (x - y) % C IN IF d > C - d THEN C - d ELSE d
----------------------------------------------------------------------------
(* ---- forms of an angle ---- *)
Forms == {"deg", "rad", "dms", "hms", "sec"}
Conv == [dms_to_deg |-> <<"dms", "deg">>, dms_deg |-> <<"dms", "deg">>, dms_to_rad |-> <<"dms", "rad">>, dms_rad |-> <<"dms", "rad">>, dms_hms |-> <<"dms", "hms">>,
         dms_neg |-> <<"dms", "dms">>, dms_pickle |-> <<"dms", "dms">>, dms_repr |-> <<"dms", "dms">>, hms_to_deg |-> <<"hms", "deg">>, hms_deg |-> <<"hms", "deg">>, hms_to_rad |-> <<"hms", "rad">>,
         hms_rad |-> <<"hms", "rad">>, hms_dms |-> <<"hms", "dms">>, hms_to_sec |-> <<"hms", "sec">>, hms_sec |-> <<"hms", "sec">>, hms_pickle |-> <<"hms", "hms">>, hms_repr |-> <<"hms", "hms">>,
         add_secs_hms |-> <<"hms", "hms">>, add_hms |-> <<"hms", "hms">>, hms_iadd |-> <<"hms", "hms">>,
         deg_to_dms |-> <<"deg", "dms">>, deg_to_hms |-> <<"deg", "hms">>, deg_to_rad |-> <<"deg", "rad">>, deg_to_sec |-> <<"deg", "sec">>, range_degrees |-> <<"deg", "deg">>,
         rad_to_deg |-> <<"rad", "deg">>, rad_to_dms |-> <<"rad", "dms">>, rad_to_hms |-> <<"rad", "hms">>]
Leaves(c) == Conv[c][1]
Reaches(c) == Conv[c][2]
Fits(c, a) == (Reaches(c) = "dms" => Abs(a) < C)
(* what a conversion makes of an angle, x is what add_secs_hms and add_hms add *)
Turn(c, a, x) == CASE c = "dms_neg" -> -a
                   [] c \in {"add_secs_hms", "add_hms", "hms_iadd"} -> Wrap(a + x)
                   [] Reaches(c) = "hms" \/ c = "range_degrees" -> Wrap(a)
                   [] OTHER -> a
(* the angle that a value writes down: dms as sign, degrees, minutes, hundredths; hms as hours, minutes, 1500ths of a second *)
Worth(f, v) == CASE f = "dms" -> (IF v[1] THEN -1 ELSE 1)*(v[2]*DEG + v[3]*6000 + v[4])
                 [] f = "hms" -> v[1]*15*DEG + v[2]*90000 + v[3]
                 [] OTHER -> v[1]
Fine(f, v) == CASE f = "dms" -> v[2] \in 0..360 /\ v[3] \in 0..59 /\ v[4] \in 0..6000 /\ v[5]
                [] f = "hms" -> v[1] \in 0..23 /\ v[2] \in 0..59 /\ v[3] \in 0..90000 /\ v[4]
                [] OTHER -> TRUE
(* an angle next to the end of the circle may come out at either end *)
Same(f, c, x, y) == IF f = "hms" \/ c = "range_degrees" THEN Gap(x, y) <= 1 ELSE IF f = "sec" \/ f = "deg" \/ f = "dms" \/ f = "rad" THEN Abs(x - y) <= 1 \/ (Gap(x, y) <= 1 /\ (Wrap(x) <= 2 \/ Wrap(x) >= C - 2)) ELSE FALSE
----------------------------------------------------------------------------
(* ---- positions: kind, two (three) coordinates ---- *)
Kinds == {"hrz", "equ", "gal", "ecl", "geo"}
(* the least and the most of the first coordinate, and whether they belong *)
InRange(k, i, x) ==
    IF i = 2 THEN x >= -Q /\ x <= Q
    ELSE CASE k \in {"hrz", "equ"} -> x >= 0 /\ x < C
           [] k \in {"gal", "ecl"} -> x >= -C /\ x < C
           [] k = "geo" -> x > -C /\ x < C
(* coordinates may be given as an object: hms or dms *)
Takes(k, i) == CASE k = "hrz" -> "deg" [] k = "equ" /\ i = 1 -> "hms" [] OTHER -> "dms"
(* ---- frames: a step takes one to another ---- *)
Steps == [gal |-> <<"j2000", "gal">>, ungal |-> <<"gal", "j2000">>, ecl |-> <<"j2000", "ecl">>, unecl |-> <<"ecl", "j2000">>, hrz |-> <<"j2000", "hrz">>, unhrz |-> <<"hrz", "j2000">>,
          b1950 |-> <<"j2000", "b1950">>, unb1950 |-> <<"b1950", "j2000">>, prec |-> <<"j2000", "date">>, unprec |-> <<"date", "j2000">>, unprec2 |-> <<"date", "j2000">>,
          galjd |-> <<"date", "gal">>, ungaljd |-> <<"gal", "date">>, rect |-> <<"j2000", "j2000">>, apparent |-> <<"j2000", "app">>,
          bgal |-> <<"b1950", "gal">>, dgal |-> <<"date", "gal">>, becl |-> <<"b1950", "ecl">>, decl |-> <<"date", "ecl">>, bhrz |-> <<"b1950", "hrz">>, dhrz |-> <<"date", "hrz">>, bprec |-> <<"b1950", "date">>]
KindOf(fr) == CASE fr = "gal" -> "gal" [] fr = "ecl" -> "ecl" [] fr = "hrz" -> "hrz" [] OTHER -> "equ"
(* only a position that knows its frame can go straight from there *)
Knows == {"bgal", "dgal", "becl", "decl", "bhrz", "dhrz", "bprec"}
(* coordinates as near as `tol`; close to a pole the first coordinate says little *)
Near(x, y, tol) == Abs(x[2] - y[2]) <= tol /\ (Abs(x[2]) < 80*DEG => Gap(x[1], y[1]) <= 6*tol)
(* directions whose coordinates are known: <<frame, coordinates, frame, coordinates, tolerance>> *)
Known == << <<"j2000", <<69429413, 9766170>>, "gal", <<0, Q>>, 100>>,                     \* the galactic pole, 192.85948 27.12825
            <<"j2000", <<95905800, -10417021>>, "gal", <<0, 0>>, 200>>,                   \* the galactic centre, 266.40500 -28.93617
            <<"j2000", <<0, 0>>, "ecl", <<0, 0>>, 6000>>, <<"j2000", <<90*DEG, 8438142>>, "ecl", <<90*DEG, 0>>, 6000>>,   \* the equinox and the solstice
            <<"j2000", <<270*DEG, 23961858>>, "ecl", <<0, Q>>, 6000>> >>
(* ---- sines, in ten thousandths, from a table of whole degrees ---- *)
Table == <<0,175,349,523,698,872,1045,1219,1392,1564,1736,1908,2079,2250,2419,2588,2756,2924,3090,3256,3420,3584,3746,3907,4067,4226,4384,4540,4695,4848,5000,5150,5299,5446,5592,5736,5878,6018,6157,6293,6428,6561,6691,6820,6947,7071,7193,7314,7431,7547,7660,7771,7880,7986,8090,8192,8290,8387,8480,8572,8660,8746,8829,8910,8988,9063,9135,9205,9272,9336,9397,9455,9511,9563,9613,9659,9703,9744,9781,9816,9848,9877,9903,9925,9945,9962,9976,9986,9994,9998,10000>>
Quarter(x) == LET d == x \div DEG IN IF d >= 90 THEN 10000 ELSE Table[d + 1] + ((Table[d + 2] - Table[d + 1])*((x - d*DEG) \div 36)) \div 10000
Sin(x) == LET w == Wrap(x) IN CASE w <= Q -> Quarter(w) [] w <= 2*Q -> Quarter(2*Q - w) [] w <= 3*Q -> -Quarter(w - 2*Q) [] OTHER -> -Quarter(C - w)
Cos(x) == Sin(x + Q)
Times(x, y) == (x*y) \div 10000
(* the sine of the altitude, and the cosine of the angle between two directions *)
SinAlt(lat, dec, h) == Times(Sin(lat), Sin(dec)) + Times(Times(Cos(lat), Cos(dec)), Cos(h))
CosSep(p, q) == Times(Sin(p[2]), Sin(q[2])) + Times(Times(Cos(p[2]), Cos(q[2])), Cos(p[1] - q[1]))
(* ---- the sidereal clock: Greenwich mean sidereal time at a day and a second of UT ---- *)
(* 280.46062 degrees at 2000-01-01 12h (51544.5) and 360.98565 degrees a day *)
Gmst(day, sec) ==
    LET n == day - 51544
        q == n \div 1000
        r == n % 1000
        slow == 95633052*q + 354833*r + (52*r) \div 1000            \* 0.9856473662862 degrees a day
        s == sec - 43200 IN
    Wrap(100965823 + Wrap(slow) + 1500*s + (s*41) \div 10 + (s*7) \div 1000)
Lst(day, sec, lng) == Wrap(Gmst(day, sec) + lng)
=============================================================================
