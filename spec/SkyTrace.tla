------------------------------ MODULE SkyTrace -----------------------------
EXTENDS Sky, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES a, form, at, objs, seen, l, dead
vars == <<a, form, at, objs, seen>>
allvars == <<vars, l, dead>>
E == Trace[l]
Nobody == [k |-> "none", fr |-> "none", fz |-> FALSE, x |-> 0, y |-> 0, org |-> 0]
Nobodies == [n \in 1..4 |-> Nobody]
Nowhere == [lat |-> 0, lng |-> 0, elv |-> 0, day |-> 0, sec |-> 0]
P2(v) == <<v[1], v[2]>>
----------------------------------------------------------------------------
(* ---- angles ---- *)
AngClauses == IF E.exc # "" THEN {"raises-" \o E.exc} ELSE {c \in {"not-the-angle", "not-proper"} :
    CASE c = "not-proper" -> ~Fine(E.f, E.v)
      [] OTHER -> ~Same(E.f, "", Worth(E.f, E.v), E.a)}
ConvClauses ==
    IF E.exc # "" THEN {"raises-" \o E.exc}
    ELSE LET f == Reaches(E.c) IN {c \in {"not-the-angle", "not-proper", "left-alone"} :
        CASE c = "not-proper" -> ~Fine(f, E.v)
          [] c = "not-the-angle" -> ~Same(f, E.c, Worth(f, E.v), Turn(E.c, a, E.x))
          [] c = "left-alone" -> ~E.same}
(* an angle compared to one that is d more *)
OneOrder(r) == r.eq = ~r.ne /\ r.le = (r.lt \/ r.eq) /\ r.ge = (r.gt \/ r.eq) /\ ~(r.lt /\ r.gt) /\ ~(r.lt /\ r.eq) /\ ~(r.gt /\ r.eq) /\ (r.lt \/ r.eq \/ r.gt)
CmpClauses == IF E.exc # "" THEN {"raises-" \o E.exc}
              ELSE {c \in {"order-consistent"} : ~OneOrder(E.r)} \cup {c \in {"order-of-equals"} : ~OneOrder(E.me) \/ ~E.me.eq}
                   \cup {c \in {"order"} : E.d # 0 /\ E.r # [lt |-> E.d > 0, eq |-> FALSE, gt |-> E.d < 0, le |-> E.d > 0, ge |-> E.d < 0, ne |-> TRUE]}
----------------------------------------------------------------------------
(* ---- positions ---- *)
Good(k, x, y) == InRange(k, 1, x) /\ InRange(k, 2, y)
MakeClauses == IF Good(E.k, E.x, E.y) THEN (IF E.exc # "" THEN {"raises-" \o E.exc} ELSE {c \in {"not-the-position"} : P2(E.v) # <<E.x, E.y>>})
               ELSE {c \in {"out-of-range-taken"} : E.exc # "ValueError"}
SetClauses == LET o == objs[E.i] IN
    IF o.fz THEN {c \in {"frozen-changed"} : ~(E.exc = "RuntimeError" \/ (E.exc = "ValueError" /\ ~InRange(o.k, E.c, E.x))) \/ P2(E.v) # <<o.x, o.y>>}
    ELSE IF ~InRange(o.k, E.c, E.x) THEN {c \in {"out-of-range-taken"} : E.exc # "ValueError" \/ P2(E.v) # <<o.x, o.y>>}
    ELSE IF E.exc # "" THEN {"raises-" \o E.exc}
    ELSE {c \in {"not-the-position"} : P2(E.v) # (IF E.c = 1 THEN <<E.x, o.y>> ELSE <<o.x, E.x>>)}
CopyClauses == LET o == objs[E.i] IN IF E.exc # "" THEN {"raises-" \o E.exc} ELSE {c \in {"not-the-position"} : ~E.exact \/ P2(E.v) # <<o.x, o.y>>}
----------------------------------------------------------------------------
(* Years since 2000, in thousandths, and what precession does in them: 46.12 and 20.04 seconds of arc a year. *)
Years(day) == ((day - 51544)*1000) \div 365
PrecDec(p, yr) == p[2] + Times((2004*yr) \div 1000, Cos(p[1]))
PrecRa(p, yr) == p[1] + (4612*yr) \div 1000 + (Times((2004*yr) \div 1000, Sin(p[1]))*Sin(p[2])) \div (1 + Cos(p[2]))
Ofdate(p, yr) == <<PrecRa(p, yr), PrecDec(p, yr)>>
NearBy(p, q, td, ta) == Abs(p[2] - q[2]) <= td /\ (Abs(q[2]) <= 45*DEG => Gap(p[1], q[1]) <= ta)
(* where a direction of J2000 is in the sky *)
DateOf(p) == IF Abs(p[2]) > 80*DEG THEN p ELSE Ofdate(p, Years(at.day))
Slop(p) == IF Abs(p[2]) > 80*DEG THEN 120 ELSE 15
H(p, lst) == lst - p[1]
UpOf(p, lst) == SinAlt(at.lat, p[2], H(p, lst))
EastOf(p, lst) == -Times(Cos(p[2]), Sin(H(p, lst)))
NorthOf(p, lst) == Times(Cos(at.lat), Sin(p[2])) - Times(Times(Sin(at.lat), Cos(p[2])), Cos(H(p, lst)))
OnSky(p, h) == LET d == DateOf(p) lst == Lst(at.day, at.sec, at.lng) s == Slop(p) IN
               /\ Abs(Sin(h[2]) - UpOf(d, lst)) <= s /\ Abs(Times(Cos(h[2]), Sin(h[1])) - EastOf(d, lst)) <= s /\ Abs(Times(Cos(h[2]), Cos(h[1])) - NorthOf(d, lst)) <= s
Has(org, fr) == <<org, fr>> \in DOMAIN seen
(* what has been through B1950 is good to half a second of arc *)
Tol(org, f) == IF f = "b1950" \/ Has(org, "b1950") THEN 60 ELSE 3
(* the frame that a step leads from: its coordinates must go with those of the one it leads to *)
StepClauses == LET o == objs[E.i] f == Steps[E.s][1] g == Steps[E.s][2] v == P2(E.v) IN
    IF E.exc # "" THEN {"raises-" \o E.exc}
    ELSE {c \in {"out-of-range", "frame-disagrees", "known-direction", "precession", "sky", "kind"} :
        CASE c = "kind" -> E.k # KindOf(g)
          [] c = "out-of-range" -> ~(E.inr /\ Good(KindOf(g), Wrap(E.v[1]), E.v[2]))
          [] c = "frame-disagrees" -> Has(o.org, g) /\ ~Near(v, seen[<<o.org, g>>], Tol(o.org, g))
          [] c = "known-direction" -> \E n \in DOMAIN Known : Known[n][3] = g /\ Has(o.org, "j2000") /\ Near(seen[<<o.org, "j2000">>], Known[n][2], 0) /\ ~Near(v, Known[n][4], Known[n][5])
          [] c = "precession" -> Has(o.org, "j2000") /\ Abs(seen[<<o.org, "j2000">>][2]) < 75*DEG /\ LET p == seen[<<o.org, "j2000">>] IN
                 CASE g = "date" -> ~NearBy(v, Ofdate(p, Years(at.day)), 400, 1500)
                   [] g = "app" -> ~NearBy(v, Ofdate(p, Years(at.day)), 6000, 10000)
                   [] g = "b1950" -> ~NearBy(v, Ofdate(p, -50000), 1500, 5000)
                   [] OTHER -> FALSE
          [] c = "sky" -> CASE g = "hrz" /\ Has(o.org, "j2000") -> ~OnSky(seen[<<o.org, "j2000">>], v)
                            [] g = "j2000" /\ Has(o.org, "hrz") -> ~OnSky(v, seen[<<o.org, "hrz">>])
                            [] OTHER -> FALSE}
----------------------------------------------------------------------------
(* ---- questions ---- *)
J(o) == seen[<<o.org, "j2000">>]
SepOk(o, q) == /\ Abs(E.s1 - E.s2) <= 120
               /\ E.s1 >= 0 /\ E.s1 <= C \div 2
               /\ (o.org = q.org => E.s1 <= 6000)
               /\ (Has(o.org, "j2000") /\ Has(q.org, "j2000") => Abs(Cos(E.s1) - CosSep(J(o), J(q))) <= 12)
               /\ (o.fr = "j2000" /\ Has(q.org, "j2000") /\ o.org # q.org =>
                      LET p == <<o.x, o.y>> r == J(q) IN
                      /\ Abs(Times(Sin(E.s1), Sin(E.pa)) - Times(Cos(r[2]), Sin(r[1] - p[1]))) <= 12
                      /\ Abs(Times(Sin(E.s1), Cos(E.pa)) - (Times(Sin(r[2]), Cos(p[2])) - Times(Times(Cos(r[2]), Sin(p[2])), Cos(r[1] - p[1])))) <= 12)
(* Rises, sets and transits within the next day. *)
Instant(t) == Lst(t[1], t[2], at.lng)
Ahead(t) == LET s == (t[1] - at.day)*86400 + t[2] - at.sec IN s >= -300 /\ s <= 86700
RstOk(o) == LET p == DateOf(J(o)) hi == Cos(at.lat - p[2]) lo == -Cos(at.lat + p[2]) IN
    CASE hi < -300 \/ lo > 300 -> E.v = << >>
      [] hi > 300 /\ lo < -300 -> /\ E.v # << >>
                                  /\ \A n \in 1..3 : Ahead(E.v[n])
                                  /\ (Abs(p[2]) <= 80*DEG =>
                                         /\ Abs(UpOf(p, Instant(E.v[1]))) <= 25 /\ EastOf(p, Instant(E.v[1])) > 0
                                         /\ Abs(UpOf(p, Instant(E.v[2]))) <= 25 /\ EastOf(p, Instant(E.v[2])) < 0
                                         /\ Abs(Times(Sin(H(p, Instant(E.v[3]))), Cos(p[2]))) <= (IF Abs(at.lat - p[2]) < 10*DEG THEN 120 ELSE 20) /\ Cos(H(p, Instant(E.v[3]))) > 0)
      [] OTHER -> TRUE
Wind(az) == LET w == Wrap(az) \div (45*DEG) IN CASE w \in {0, 7} -> "N" [] w \in {1, 2} -> "E" [] w \in {3, 4} -> "S" [] OTHER -> "W"
AtSeam(az) == \E n \in {45, 135, 225, 315} : Abs(Wrap(az) - n*DEG) <= 2
LookOk(o) == /\ Abs(E.v[1] - Times(Cos(o.y), Sin(o.x))) <= 6 /\ Abs(E.v[2] - Times(Cos(o.y), Cos(o.x))) <= 6 /\ Abs(E.v[3] - Sin(o.y)) <= 6
             /\ Abs(E.zen - (Q - o.y)) <= 1
             /\ (AtSeam(o.x) \/ E.w = Wind(o.x))
(* metres in ECEF, in km, and what comes back *)
GeoOk(o) == /\ Gap(E.v[1], o.x) <= 1 \/ Abs(o.y) > Q - 10
            /\ Abs(E.v[2] - o.y) <= 1 /\ Abs(E.v[3] - 1000*at.elv) <= 2
            /\ Abs(E.r[3] - (6367*Sin(o.y)) \div 10000) <= 25
            /\ Abs(E.r[1] - (6367*Times(Cos(o.y), Cos(o.x))) \div 10000) <= 25 /\ Abs(E.r[2] - (6367*Times(Cos(o.y), Sin(o.x))) \div 10000) <= 25
LstOk == /\ Gap(E.v[1], Gmst(at.day, at.sec)) <= 1700 /\ Gap(E.v[2], Gmst(at.day, at.sec)) <= 4000
         /\ Gap(E.v[3], Wrap(E.v[2] + at.lng)) <= 1
FormatOk(o) == LET f == IF o.k = "equ" THEN "hms" ELSE "dms" IN
               Fine(f, E.v[1]) /\ Fine("dms", E.v[2]) /\ Same(f, "", Worth(f, E.v[1]), o.x) /\ Same("dms", "", Worth("dms", E.v[2]), o.y)
AskClauses == LET o == objs[E.i] q == objs[E.j] IN
    IF E.exc # "" THEN {"raises-" \o E.exc}
    ELSE {c \in {E.q} :
        CASE E.q = "eq" -> \/ E.eq = E.ne
                           \/ E.eq /\ <<o.x, o.y>> # <<q.x, q.y>>
                           \/ ~E.eq /\ E.i = E.j
          [] E.q = "foreign" -> E.got # <<"TypeError", "TypeError">>
          [] E.q = "bad" -> E.got # <<"ValueError", IF o.fz THEN "RuntimeError" ELSE "ValueError">>
          [] E.q = "sep" -> ~SepOk(o, q)
          [] E.q = "rst" -> Has(o.org, "j2000") /\ ~RstOk(o)
          [] E.q = "look" -> ~LookOk(o)
          [] E.q = "geo" -> ~GeoOk(o)
          [] E.q = "lst" -> ~LstOk
          [] E.q = "format" -> ~FormatOk(o)
          [] OTHER -> FALSE}
Clauses == CASE E.op = "ang" -> AngClauses
             [] E.op = "conv" -> ConvClauses
             [] E.op = "acmp" -> CmpClauses
             [] E.op = "make" -> MakeClauses
             [] E.op = "set" -> SetClauses
             [] E.op = "copy" -> CopyClauses
             [] E.op = "step" -> StepClauses
             [] E.op = "ask" -> AskClauses
             [] OTHER -> {}
Frame0(k) == IF k = "equ" THEN "j2000" ELSE k
See(org, fr, v) == IF fr = "geo" THEN seen ELSE (<<org, fr>> :> v) @@ seen
Fresh(k, v) == /\ objs' = [objs EXCEPT ![E.to] = [k |-> k, fr |-> Frame0(k), fz |-> FALSE, x |-> v[1], y |-> v[2], org |-> l]]
               /\ seen' = See(l, Frame0(k), v)
Move == CASE E.op = "ang" -> a' = E.a /\ form' = E.f /\ UNCHANGED <<at, objs, seen>>
          [] E.op = "conv" -> a' = Turn(E.c, a, E.x) /\ form' = Reaches(E.c) /\ UNCHANGED <<at, objs, seen>>
          [] E.op = "place" -> at' = [lat |-> E.lat, lng |-> E.lng, elv |-> E.elv, day |-> E.day, sec |-> E.sec] /\ UNCHANGED <<a, form, objs, seen>>
          [] E.op = "make" -> UNCHANGED <<a, form, at>> /\ IF E.exc = "" THEN Fresh(E.k, <<E.x, E.y>>) ELSE UNCHANGED <<objs, seen>>
          [] E.op = "set" -> UNCHANGED <<a, form, at>> /\ IF E.exc # "" THEN UNCHANGED <<objs, seen>>
                             ELSE LET o == objs[E.i] IN
                                  /\ objs' = [objs EXCEPT ![E.i] = [o EXCEPT !.x = E.v[1], !.y = E.v[2], !.org = l]]
                                  /\ seen' = See(l, o.fr, P2(E.v))
          [] E.op = "copy" -> UNCHANGED <<a, form, at>> /\ LET o == objs[E.i] f == IF o.fr \in {"b1950", "date", "app"} THEN "j2000" ELSE o.fr IN
                              /\ objs' = [objs EXCEPT ![E.to] = [o EXCEPT !.fr = f, !.fz = FALSE, !.org = IF f = o.fr THEN @ ELSE l]]
                              /\ seen' = IF f = o.fr THEN seen ELSE See(l, f, <<o.x, o.y>>)
          [] E.op = "step" -> UNCHANGED <<a, form, at>> /\ LET o == objs[E.i] g == Steps[E.s][2] IN
                              /\ objs' = [objs EXCEPT ![E.to] = [k |-> E.k, fr |-> g, fz |-> TRUE, x |-> E.v[1], y |-> E.v[2], org |-> o.org]]
                              /\ seen' = IF Has(o.org, g) THEN seen ELSE See(o.org, g, P2(E.v))
          [] OTHER -> UNCHANGED vars
Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)
Init == a = 0 /\ form = "none" /\ at = Nowhere /\ objs = Nobodies /\ seen = << >> /\ l = 1 /\ dead = FALSE
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF E.op = "begin" THEN a' = 0 /\ form' = "none" /\ at' = Nowhere /\ objs' = Nobodies /\ seen' = << >> /\ dead' = FALSE
       ELSE IF dead /\ E.op # "ang" THEN UNCHANGED <<vars, dead>>
       ELSE LET cs == Clauses IN
            IF cs = {} THEN Move /\ dead' = FALSE
            ELSE Report(cs) /\ dead' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][Next]_allvars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
