----------------------------- MODULE VisFileMC -----------------------------
EXTENDS VisFile, Randomization, TLC, Json, IOUtils, CSV
CONSTANTS MaxOps, NAnt, MaxBl, NTime, MaxData, Emit
VARIABLES pend, hist, ops, reads
allvars == <<vars, pend, hist, ops, reads>>
One(S) == IF Emit THEN RandomSubset(1, S) ELSE S
Ids == <<7, 258, 21, 180, 300>>                       \* identifiers above 255 are renumbered in FITS IDI
PolSets == IF Emit THEN {<<1>>, <<2>>, <<1, 2>>, <<1, 2>>, <<1, 2, 3, 4>>, <<1, 3>>, <<3, 4>>, <<2, 3, 4>>} ELSE {<<1, 2>>, <<1, 3>>}
Fmts == {"idi", "ext", "aips", "uv", "ms"}
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Pos3 == {<<e, n, u>> : e \in {-9, -4, 0, 3, 8}, n \in {-7, 0, 2, 6}, u \in {-1, 0, 2}}
Setup ==
    /\ \E f \in One(IF Emit THEN Fmts ELSE {"idi", "ms"}), ps \in One(PolSets), nb \in One(IF Emit THEN 1..3 ELSE {1}),
          nc \in One(IF Emit THEN {2, 3} ELSE {1}), n \in One(IF Emit THEN 2..NAnt ELSE {NAnt}) :
       \E pm \in One(Perms(IF Emit THEN 5 ELSE n)), pos \in One([1..n -> IF Emit THEN RandomSubset(6, Pos3) ELSE {<<0, 0, 0>>}]) :
         LET ids == [i \in 1..n |-> Ids[pm[i]]]
             top == IF f = "idi" THEN 255 ELSE IF f = "aips" THEN 99 ELSE 65535
         IN conf' = [fmt |-> f, stands |-> ids, pos |-> pos, pols |-> ps,
                     bands |-> IF f = "uv" THEN 1 ELSE nb, chans |-> nc,
                     map |-> IF \E i \in 1..n : ids[i] > top THEN [i \in 1..n |-> i] ELSE ids]
    /\ state = "none" /\ state' = "open"
    /\ UNCHANGED <<data, rows, pend, hist, ops, reads>>
Init == /\ conf = << >> /\ data = << >> /\ state = "none" /\ rows = << >>
        /\ pend = << >> /\ hist = << >> /\ ops = 0 /\ reads = 0
Do(ev) == /\ hist' = IF Emit THEN Append(hist, ev) ELSE hist
          /\ ops' = ops + 1
Ants == 1..Len(conf.stands)
K == Len(data) + 1
Has(a, b) == <<a, b>> \in Range(pend) \/ <<b, a>> \in Range(pend)
Turn(s, r) == IF s = << >> THEN s ELSE [i \in 1..Len(s) |-> s[((i + r - 1) % Len(s)) + 1]]
(* the baselines that the next data sets are given with *)
Bl(a, b) == /\ Len(pend) < MaxBl /\ ~Has(a, b) /\ pend' = Append(pend, <<a, b>>)
Mix(r) == Len(pend) > 1 /\ pend' = Turn(pend, r)
Drop == Len(pend) > (IF Emit THEN 3 ELSE 1) /\ pend' = Tail(pend)
(* all of the polarizations of an integration, in some order, each with the baselines in an order of its own *)
AddAll(t, w, rev, r) ==
    /\ state = "open" /\ pend # << >>
    /\ LET n == Len(conf.pols) IN
       /\ data' = data \o [i \in 1..n |-> [k |-> K + i - 1, t |-> t, pol |-> conf.pols[IF rev THEN n + 1 - i ELSE i], int |-> t, wgt |-> w,
                                           bls |-> IF i = 1 THEN pend ELSE Turn(pend, r)]]
       /\ UNCHANGED <<conf, state, rows>>
Sets == LET n == Len(Stored) IN {<<i>> : i \in 1..n} \cup {<<i, j>> : i, j \in 1..n} \cup {[i \in 1..n |-> n + 1 - i]} \cup {[i \in 1..n |-> i]}
Step ==
    /\ state # "none"
    /\ ops < MaxOps /\ (Emit \/ Len(data) <= MaxData)
    /\ \/ \E a \in One(Ants), b \in One(Ants) : state = "open" /\ (Emit => ops < MaxOps - 6) /\ Bl(a, b) /\ Do([op |-> "bl", a |-> a, b |-> b]) /\ UNCHANGED <<vars, reads>>
       \/ \E a \in One(Ants), b \in One(Ants) : Emit /\ state = "open" /\ ops < 8 /\ Bl(a, b) /\ Do([op |-> "bl", a |-> a, b |-> b]) /\ UNCHANGED <<vars, reads>>
       \/ \E r \in One(1..2) : state = "open" /\ (Emit => ops < MaxOps - 6) /\ Mix(r) /\ Do([op |-> "mix", r |-> r]) /\ UNCHANGED <<vars, reads>>
       \/ state = "open" /\ (Emit => ops < MaxOps - 6) /\ Drop /\ Do([op |-> "drop"]) /\ UNCHANGED <<vars, reads>>
       \/ \E t \in One(1..NTime), w \in One(IF Emit /\ conf.fmt # "ms" THEN BOOLEAN ELSE {FALSE}), rev \in One(BOOLEAN), r \in One({0, 0, 1}) :
            (Emit => t \notin Times(data)) /\ AddAll(t, w, rev, r)
            /\ Do([op |-> "all", t |-> t, wgt |-> w, rev |-> rev, r |-> r]) /\ UNCHANGED <<pend, reads>>
       \/ \E t \in One(1..NTime), w \in One(IF Emit /\ conf.fmt # "ms" THEN BOOLEAN ELSE {FALSE}), rev \in One(BOOLEAN), r \in One({0, 0, 1}) :
            Emit /\ ops > 4 /\ (Emit => t \notin Times(data)) /\ AddAll(t, w, rev, r)
            /\ Do([op |-> "all", t |-> t, wgt |-> w, rev |-> rev, r |-> r]) /\ UNCHANGED <<pend, reads>>
       \/ \E t \in One(1..NTime), p \in One(Range(conf.pols)) :
            /\ state = "open" /\ pend # << >> /\ (~Emit \/ Len(data) % 7 = 6)
            /\ Add([k |-> K, t |-> t, pol |-> p, int |-> t, wgt |-> FALSE, bls |-> pend])
            /\ Do([op |-> "one", t |-> t, pol |-> p]) /\ UNCHANGED <<pend, reads>>
       \/ data # << >> /\ (~Emit \/ ops >= MaxOps - 6) /\ Write /\ Do([op |-> "write"]) /\ UNCHANGED <<pend, reads>>
       \/ /\ state = "written" /\ Emit
          /\ \E s \in One(Sets), auto \in One(BOOLEAN), sort \in One(BOOLEAN), lo \in One({-1, -1, 20, 80}), hi \in One({100000, 100000, 150}) :
               Do([op |-> "read", sets |-> s, auto |-> auto, sort |-> sort, lo |-> lo, hi |-> hi])
          /\ reads' = reads + 1 /\ UNCHANGED <<vars, pend>>
       \/ state = "refused" /\ Emit /\ Do([op |-> "none"]) /\ UNCHANGED <<vars, pend, reads>>
Next == Setup \/ Step
Spec == Init /\ [][Next]_allvars
View == <<vars, pend, IF Emit THEN ops ELSE 0>>
EmitDone == ops = MaxOps => CSVWrite("%1$s", <<ToJson([conf |-> conf, ops |-> hist])>>, IOEnv.GEN_OUT)
=============================================================================
