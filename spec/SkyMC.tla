------------------------------- MODULE SkyMC -------------------------------
EXTENDS Sky, Randomization, Json, IOUtils, CSV
CONSTANTS MaxOps, Emit
VARIABLES mode, a, form, objs, hist, ops
vars == <<mode, a, form, objs, hist, ops>>
One(X) == IF Emit THEN RandomSubset(1, X) ELSE X
Rare(n) == RandomElement(1..n) = 1
Convs == DOMAIN Conv
----------------------------------------------------------------------------
(* The small machine: angles near every seam carried from form to form; positions set and carried from frame to frame. *)
Seams == {0, 1, -1, 6000, 5999, -6000, Q, C - 1, 1 - C, 15*DEG, 15*DEG - 1, C \div 2}
SmallNew == mode = "none" /\ \E x \in Seams, f \in Forms : (f = "hms" => x >= 0) /\ mode' = "ang" /\ a' = x /\ form' = f /\ UNCHANGED objs
SmallConv == mode = "ang" /\ \E c \in Convs, x \in {0, 1, 90000, C - 1} : Leaves(c) = form /\ Fits(c, a) /\ a' = Turn(c, a, x) /\ form' = Reaches(c) /\ UNCHANGED <<mode, objs>>
Wide == Seams \cup {C, -C, Q + 1, -Q, -Q - 1}
SmallPos == mode \in {"none", "pos"} /\ Len(objs) < 1 /\ \E k \in Kinds, x, y \in {0, -1, C, C - 1, -C, Q, -Q, Q + 1} : mode' = "pos" /\ UNCHANGED <<a, form>>
            /\ objs' = (IF InRange(k, 1, x) /\ InRange(k, 2, y) THEN Append(objs, [k |-> k, fr |-> IF k = "equ" THEN "j2000" ELSE k, fz |-> FALSE, x |-> x, y |-> y]) ELSE objs)
SmallSet == mode = "pos" /\ objs # << >> /\ \E i \in 1..2, x \in Wide : UNCHANGED <<mode, a, form>>
            /\ objs' = (IF objs[1].fz \/ ~InRange(objs[1].k, i, x) THEN objs ELSE IF i = 1 THEN [objs EXCEPT ![1].x = x] ELSE [objs EXCEPT ![1].y = x])
SmallStep == mode = "pos" /\ objs # << >> /\ \E s \in DOMAIN Steps : Steps[s][1] = objs[1].fr /\ (s \in Knows => objs[1].fz) /\ UNCHANGED <<mode, a, form>>
            /\ objs' = [objs EXCEPT ![1] = [@ EXCEPT !.k = KindOf(Steps[s][2]), !.fr = Steps[s][2], !.fz = TRUE, !.x = IF InRange(KindOf(Steps[s][2]), 1, objs[1].x) THEN @ ELSE Wrap(@)]]
----------------------------------------------------------------------------
(* Behaviours for the code. *)
Ang(z_) == CASE Rare(5) -> RandomElement(0..23)*15*DEG + RandomElement(0..59)*90000 + RandomElement({0, 0, 1500*59, 45000})
             [] Rare(3) -> RandomElement(-359..359)*DEG + RandomElement(0..59)*6000 + RandomElement({0, 3000, 5900})
             [] Rare(6) -> RandomElement(Seams)
             [] OTHER -> RandomElement((1 - C)..(C - 1))
NewAng == /\ mode = "none" \/ (mode = "ang" /\ (form = "sec" \/ Rare(6)))
          /\ \E f \in One(Forms), x \in {Ang(ops)} : \E w \in {IF f = "hms" THEN Wrap(x) ELSE IF f = "deg" /\ Rare(10) THEN x + C ELSE IF f = "deg" /\ Rare(10) THEN x - C ELSE x} :
               /\ mode' = "ang" /\ a' = w /\ form' = f /\ hist' = Append(hist, [op |-> "ang", f |-> f, a |-> w]) /\ UNCHANGED objs
ConvAng == /\ mode = "ang" /\ {c \in Convs : Leaves(c) = form /\ Fits(c, a)} # {}
           /\ \E c \in One({c \in Convs : Leaves(c) = form /\ Fits(c, a)}), x \in {Wrap(Ang(ops))} :
                /\ a' = Turn(c, a, x) /\ form' = Reaches(c) /\ hist' = Append(hist, [op |-> "conv", c |-> c, x |-> x]) /\ UNCHANGED <<mode, objs>>
AskAng == /\ mode = "ang" /\ form \in {"dms", "hms"}
          /\ \E d \in One({0, 1, -1, 6000, -90000, DEG}), g \in One({"dms", "hms", "deg"}) : hist' = Append(hist, [op |-> "acmp", g |-> g, d |-> d]) /\ UNCHANGED <<mode, a, form, objs>>
Lng(z_) == RandomElement({-38746000, 0, 64799999, -64800000, 1, 100000000 - C, 21600000})
Place == /\ mode = "none"
         /\ \E lat \in One({12264904, -11124000, 0, 18000000, -23400000, 27000000}), lng \in {Lng(ops)}, elv \in One({0, 2133, -50}), day \in One(51700..58700), sec \in One(0..86399) :
              hist' = Append(hist, [op |-> "place", lat |-> lat, lng |-> lng, elv |-> elv, day |-> day, sec |-> sec]) /\ mode' = "pos" /\ UNCHANGED <<a, form, objs>>
XOf(k, z_) == IF Rare(6) THEN RandomElement({0, -1, C - 1, -C, 1 - C, IF k = "ecl" THEN C + 1 ELSE C}) ELSE IF k \in {"hrz", "equ"} /\ ~Rare(12) THEN RandomElement(0..(C - 1)) ELSE RandomElement((1 - C)..(C - 1))
YOf(z_) == IF Rare(6) THEN RandomElement({Q, -Q, Q + 1, -Q - 1, 0}) ELSE RandomElement((-Q)..Q)
Put(o) == IF Len(objs) < 4 THEN Append(objs, o) ELSE [objs EXCEPT ![1 + (ops % 4)] = o]
Slot == IF Len(objs) < 4 THEN Len(objs) + 1 ELSE 1 + (ops % 4)
MakePos == /\ mode = "pos"
           /\ \E k \in One(Kinds), how \in One({"num", "num2", "obj"}) : \E x \in {XOf(k, ops)}, y \in {YOf(ops)} :
                /\ hist' = Append(hist, [op |-> "make", k |-> k, x |-> x, y |-> y, how |-> how, to |-> Slot])
                /\ objs' = (IF InRange(k, 1, x) /\ InRange(k, 2, y) THEN Put([k |-> k, fr |-> IF k = "equ" THEN "j2000" ELSE k, fz |-> FALSE]) ELSE objs)
                /\ UNCHANGED <<mode, a, form>>
KnownPos == /\ mode = "pos" /\ Rare(4)
            /\ \E n \in One(DOMAIN Known) : hist' = Append(hist, [op |-> "make", k |-> "equ", x |-> Known[n][2][1], y |-> Known[n][2][2], how |-> "num", to |-> Slot]) /\ objs' = Put([k |-> "equ", fr |-> "j2000", fz |-> FALSE])
            /\ UNCHANGED <<mode, a, form>>
SetPos == /\ mode = "pos" /\ objs # << >>
          /\ \E i \in One(DOMAIN objs), c \in One(1..2), how \in One({"attr", "index", "zen", "obj"}) : \E x \in {IF c = 1 THEN XOf(objs[i].k, ops) ELSE YOf(ops)} :
               hist' = Append(hist, [op |-> "set", i |-> i, c |-> c, how |-> IF how = "zen" /\ (objs[i].k # "hrz" \/ c = 1) THEN "attr" ELSE how, x |-> x]) /\ UNCHANGED <<mode, a, form, objs>>
CopyPos == /\ mode = "pos" /\ objs # << >>
           /\ \E i \in One(DOMAIN objs), how \in One({"pickle", "repr"}) :
               /\ hist' = Append(hist, [op |-> "copy", i |-> i, how |-> how, to |-> Slot])
               /\ objs' = Put([k |-> objs[i].k, fr |-> IF objs[i].k = "equ" THEN "j2000" ELSE objs[i].fr, fz |-> FALSE]) /\ UNCHANGED <<mode, a, form>>
CanStep(i) == {s \in DOMAIN Steps : Steps[s][1] = objs[i].fr /\ (s \in Knows => objs[i].fz) /\ (s = "rect" => ~objs[i].fz)}
StepPos == /\ mode = "pos" /\ {i \in DOMAIN objs : CanStep(i) # {}} # {}
           /\ \E i \in One({i \in DOMAIN objs : CanStep(i) # {}}) : \E s \in One(CanStep(i)) :
               /\ hist' = Append(hist, [op |-> "step", i |-> i, s |-> s, to |-> Slot])
               /\ objs' = Put([k |-> KindOf(Steps[s][2]), fr |-> Steps[s][2], fz |-> TRUE]) /\ UNCHANGED <<mode, a, form>>
AskPos == /\ mode = "pos" /\ objs # << >>
          /\ \E i \in One(DOMAIN objs), j \in One(DOMAIN objs), q \in One({"eq", "sep", "rst", "look", "geo", "lst", "format", "bad"}) :
               hist' = Append(hist, [op |-> "ask", i |-> i, j |-> j, q |-> q]) /\ UNCHANGED <<mode, a, form, objs>>
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ IF Emit THEN (NewAng \/ ConvAng \/ ConvAng \/ AskAng \/ Place \/ MakePos \/ KnownPos \/ SetPos \/ CopyPos \/ StepPos \/ StepPos \/ StepPos \/ AskPos)
           ELSE (SmallNew \/ SmallConv \/ SmallPos \/ SmallSet \/ SmallStep) /\ UNCHANGED hist
Init == mode = "none" /\ a = 0 /\ form = "none" /\ objs = << >> /\ hist = << >> /\ ops = 0
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* Hours, minutes and seconds never leave the circle; fields name the angle they were made from. *)
Hours == mode = "ang" /\ form = "hms" => a \in 0..(C - 1)
DmsOf(x) == <<x < 0, Abs(x) \div DEG, (Abs(x) \div 6000) % 60, Abs(x) % 6000, TRUE>>
HmsOf(x) == <<x \div (15*DEG), (x \div 90000) % 60, x % 90000, TRUE>>
Named == mode = "ang" => /\ (Abs(a) < C => Worth("dms", DmsOf(a)) = a /\ Fine("dms", DmsOf(a)))
                         /\ Worth("hms", HmsOf(Wrap(a))) = Wrap(a) /\ Fine("hms", HmsOf(Wrap(a)))
(* Positions stay in their ranges and a frame is that of the kind. *)
Ranged == \A i \in DOMAIN objs : ~Emit => InRange(objs[i].k, 1, objs[i].x) /\ InRange(objs[i].k, 2, objs[i].y) /\ (objs[i].fr # "geo" => KindOf(objs[i].fr) = objs[i].k)
(* A direction can come back from every frame but that of the date that it appears in. *)
RECURSIVE Back(_, _)
Back(S, n) == IF n = 0 THEN S ELSE Back(S \cup {Steps[s][1] : s \in {t \in DOMAIN Steps : Steps[t][2] \in S}}, n - 1)
ASSUME \A d \in 0..359 : Abs(Times(Sin(d*DEG), Sin(d*DEG)) + Times(Cos(d*DEG), Cos(d*DEG)) - 10000) <= 4 /\ Abs(Sin(2*d*DEG) - 2*Times(Sin(d*DEG), Cos(d*DEG))) <= 4
ASSUME Sin(30*DEG) = 5000 /\ Sin(-30*DEG) = -5000 /\ Cos(180*DEG) = -10000 /\ Abs(SinAlt(0, 0, 60*DEG) - 5000) <= 1
ASSUME Back({"j2000"}, 4) = {"j2000", "gal", "ecl", "hrz", "b1950", "date"}
EmitDone == ops = MaxOps => CSVWrite("%1$s", <<ToJson([ops |-> hist])>>, IOEnv.GEN_OUT)
=============================================================================
