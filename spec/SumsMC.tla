------------------------------- MODULE SumsMC -------------------------------
EXTENDS Sums, Randomization, Json, IOUtils, CSV, TLC
CONSTANTS MaxOps, Emit
VARIABLES h, hist, ops
vars == <<h, hist, ops>>
R(a, b) == RandomElement(a..b)
Kinds == {"drx", "drx8", "tbx", "vdif", "real", "cor", "spec"}
Prods == {<<"XX", "YY">>, <<"XX">>, <<"I", "V">>, <<"I", "Q", "U", "V">>, <<"XX", "XY_real", "XY_imag", "YY">>}
Cx(k) == k \notin {"spec", "real"}
Time(k) == IF k \in {"vdif", "real"} THEN 2*R(1, 4) ELSE R(1, 8)
Frame(o) == LET k == RandomElement(IF o % 5 = 0 THEN {"spec"} ELSE Kinds) p == IF k = "spec" THEN RandomElement(Prods) ELSE << >> IN
            [kind |-> k, prods |-> p, t |-> Time(k), tag |-> R(1, 4), valid |-> RandomElement({TRUE, TRUE, FALSE}), d |-> [x \in 1..(IF k = "spec" THEN 4*Len(p) ELSE 3) |-> <<U*R(-20, 20), IF Cx(k) THEN U*R(-20, 20) ELSE 0>>]]
Set(o) == LET i == R(1, Len(h)) IN [op |-> "set", i |-> i, t |-> Time(h[i].kind), tag |-> R(1, 4), valid |-> R(1, 2) = 1]
Other(i) == IF R(1, 5) = 1 THEN LET os == {x \in 1..Len(h) : (h[x].kind = "spec") # (h[i].kind = "spec")} IN IF os = {} THEN i ELSE RandomElement(os)
            ELSE RandomElement({x \in 1..Len(h) : h[x].kind = h[i].kind})
Act(o) == LET i == R(1, Len(h)) w == RandomElement({"frame", "frame", "frame", "num", "num", "num", "array", "other"}) f == RandomElement({"+", "-", "*", "/", "//"}) cx == Cx(h[i].kind) IN
          [op |-> "do", i |-> i, f |-> f, inplace |-> R(1, 2) = 1, with |-> IF h[i].kind = "spec" /\ w \in {"other", "array"} THEN "num" ELSE w,
           j |-> IF w = "frame" THEN Other(i) ELSE 0,
           v |-> IF f \in {"*", "/", "//"} THEN <<RandomElement({U, -U, 2*U, U \div 2, 3*U}), 0>> ELSE <<U*R(-9, 9), IF cx THEN RandomElement({0, U*R(-9, 9)}) ELSE 0>>,
           vals |-> [x \in 1..Len(h[i].d) |-> IF f \in {"*", "/", "//"} THEN RandomElement({<<U, 0>>, <<2*U, 0>>, <<-U, 0>>} \cup (IF cx THEN {<<0, U>>} ELSE {})) ELSE <<U*R(-9, 9), IF cx THEN U*R(-9, 9) ELSE 0>>]]
Cmp(o) == [op |-> "cmp", i |-> R(1, Len(h)), j |-> R(1, Len(h)), t |-> 2*R(0, 5), with |-> RandomElement({"frame", "frame", "stamp", "int", "float"})]
Sort(o) == [op |-> "sort"]
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \E o \in {CASE Len(h) < 2 -> [op |-> "new", frame |-> Frame(ops)] [] R(1, 5) = 1 -> [op |-> "new", frame |-> Frame(ops)] [] R(1, 6) = 1 -> Cmp(ops) [] R(1, 14) = 1 -> Sort(ops) [] R(1, 14) = 1 -> Set(ops) [] OTHER -> Act(ops)} :
             IF o.op = "do" /\ (~Able(h, o) \/ Len(h) > 12) THEN UNCHANGED <<h, hist>> ELSE h' = Step(h, o) /\ hist' = Append(hist, o)
Init == h = << >> /\ hist = << >> /\ ops = 0
Spec == Init /\ [][Next]_vars
(* nothing but the frame that is changed in place changes *)
Alone == [][\A k \in 1..Len(h) : h'[k] = h[k] \/ (LET o == hist'[Len(hist')] IN o.op = "do" /\ o.inplace /\ o.i = k /\ h'[k].t = h[k].t /\ h'[k].prods = h[k].prods /\ h'[k].tag = h[k].tag) \/ hist'[Len(hist')].op = "set"]_vars
(* the small world, all of it: two frames of spectra with products that do or do not match, one of complex samples *)
Small == {[kind |-> "spec", prods |-> p, t |-> 1, tag |-> 1, valid |-> TRUE, d |-> [x \in 1..4*Len(p) |-> <<v, 0>>]] : p \in {<<"XX">>, <<"XX", "YY">>, <<"I">>}, v \in {8, -16}}
         \cup {[kind |-> "drx", prods |-> << >>, t |-> 2, tag |-> 1, valid |-> TRUE, d |-> [x \in 1..3 |-> v]] : v \in {<<8, 8>>, <<0, -16>>}}
Ops == {[op |-> "new", frame |-> f] : f \in Small}
       \cup [op : {"do"}, i : 1..Len(h), j : 1..Len(h), f : {"+", "-", "*", "/", "//"}, inplace : BOOLEAN, with : {"frame", "num", "other"}, v : {<<16, 0>>, <<-8, 0>>}]
       \cup [op : {"set"}, i : 1..Len(h), t : {1, 2}, tag : {2}, valid : BOOLEAN]
NextAll == /\ ops < MaxOps /\ ops' = ops + 1
           /\ \E o \in Ops : (o.op = "new" => Len(h) < 2) /\ (o.op = "do" => Able(h, o)) /\ Len(h) < 4 /\ h' = Step(h, o) /\ hist' = <<o>>
SpecAll == Init /\ [][NextAll]_vars
(* what is done and undone leaves what was there; a frame that is refused leaves everything as it was *)
Undone == [][LET o == hist'[Len(hist')] u == IF o.op = "do" THEN [o EXCEPT !.f = IF o.f = "+" THEN "-" ELSE "+", !.inplace = TRUE] ELSE o IN
             (o.op = "do" /\ o.f \in {"+", "-"} /\ o.inplace /\ (o.with = "num" \/ (o.with = "frame" /\ o.i # o.j)) /\ ~Refused(h, o)) => Step(h', u) = h]_vars
Kept == [][LET o == hist'[Len(hist')] IN (o.op = "do" /\ Refused(h, o)) => h' = h]_vars
V == {<<0, 0>>, <<8, 0>>, <<-8, 16>>, <<4, -8>>, <<0, 24>>}
ASSUME \A a, b \in V : One("-", One("+", a, b), b) = a /\ (Exact("*", a, b) /\ Exact("/", One("*", a, b), b) => One("/", One("*", a, b), b) = a)
ASSUME \A a \in -20..20 : \A b \in {-3, -2, -1, 1, 2, 3} : LET q == Floor(a, b) IN (b > 0 => b*q <= a /\ a < b*(q + 1)) /\ (b < 0 => b*q >= a /\ a > b*(q + 1))
EmitDone == (Emit /\ ops = MaxOps) => CSVWrite("%1$s", <<ToJson([ops |-> hist])>>, IOEnv.GEN_OUT)
=============================================================================
