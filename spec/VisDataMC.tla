----------------------------- MODULE VisDataMC -----------------------------
EXTENDS VisData, Randomization, TLC, Json, IOUtils, CSV
CONSTANTS MaxOps, MaxObj, MaxBl, Emit
VARIABLES pend, hist, ops
allvars == <<vars, pend, hist, ops>>
One(S) == IF Emit THEN RandomSubset(1, S) ELSE S
Ants == IF Emit THEN 1..4 ELSE 1..2
Objs == 1..N
Lists == IF Emit THEN {"a", "b", "c"} ELSE {"a", "b"}
PolSets == IF Emit THEN {<<"XX">>, <<"XX", "YY">>, <<"XY", "YX", "XX", "YY">>, <<"XX", "YY", "XY", "YX">>, <<"I", "Q", "U", "V">>, <<"V", "I">>, <<"Q", "U">>, <<"YX", "XY">>, <<"XX", "YY", "XY">>}
           ELSE {<<"XX", "YY">>, <<"YX", "XY">>}
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Turn(s, r) == IF s = << >> THEN s ELSE [i \in 1..Len(s) |-> s[((i + r - 1) % Len(s)) + 1]]
Perm(n, rev, r) == Turn([i \in 1..n |-> IF rev THEN n + 1 - i ELSE i], r)
Sel == IF ~Emit THEN {<<1>>} ELSE {<<1>>, <<1, 2>>, <<2, 1, 4>>, <<3, 4>>, <<1, 3, 4>>, <<4>>}
NoSel == <<0>>
Cuts == IF Emit THEN {0, 5, 6, 10, 15, 16, 100} ELSE {0, 5}
Vals == IF ~Emit THEN {<<64, -128, 192, 1>>} ELSE {<<64, -128, 192, 1>>, <<-640, 320, 64, 0>>}
Init == /\ heap = << >> /\ lists = [x \in Lists |-> << >>] /\ pds = << >> /\ pend = << >> /\ hist = << >> /\ ops = 0
Do(ev) == /\ hist' = IF Emit THEN Append(hist, ev) ELSE hist
          /\ ops' = ops + 1 /\ UNCHANGED pend
Room == N < MaxObj
Early == ~Emit \/ ops < 12
Next ==
    /\ ops < MaxOps
    /\ \/ \E a \in One(Ants), b \in One(Ants) : Len(pend) < MaxBl /\ <<a, b>> \notin Range(pend) /\ pend' = Append(pend, <<a, b>>)
             /\ UNCHANGED <<vars, hist, ops>>
       \/ \E a \in One(Ants), b \in One(Ants) : Emit /\ Len(pend) < 3 /\ <<a, b>> \notin Range(pend) /\ pend' = Append(pend, <<a, b>>)
             /\ UNCHANGED <<vars, hist, ops>>
       \/ \E t \in One(1..(IF Emit THEN 3 ELSE 2)), ps \in One(PolSets) : Early /\ Room /\ (pend # << >> \/ (Emit /\ t = 3)) /\ New(Fresh(N + 1, t, pend, ps))
             /\ Do([op |-> "new", t |-> t, bls |-> pend, pols |-> ps])
       \/ \E i \in One(Objs) : Room /\ Copy(i) /\ Do([op |-> "copy", i |-> i])
       \/ \E i \in One(Objs) : Emit /\ Room /\ CopyBare(i) /\ Do([op |-> "bare", i |-> i])
       \/ \E i \in One(Objs) : heap[i].bls # << >> /\ heap[i].pols # << >> /\
             \E p \in One(Range(heap[i].pols)), b \in One(1..(IF Emit THEN Len(heap[i].bls) ELSE 1)), c \in One(1..2), v \in One(Vals) :
               Set(i, p, b, c, v) /\ Do([op |-> "set", i |-> i, p |-> p, b |-> b, c |-> c, v |-> v])
       \/ \E i \in One(Objs) : Emit /\ heap[i].bls # << >> /\
             \E b \in One(1..Len(heap[i].bls)), v \in One({<<3, 4>>, <<-6, 8>>, <<0, 0>>}) : SetUv(i, b, v) /\ Do([op |-> "setuv", i |-> i, b |-> b, v |-> v])
       \/ \E i \in One(Objs), c \in One(1..2), v \in One(20..24) : Emit /\ SetFreq(i, c, v) /\ Do([op |-> "setfreq", i |-> i, c |-> c, v |-> v])
       \/ \E i \in One(Objs), p \in One({"XX", "YY", "XY", "I", "V"}), k \in One(20..23) : Emit /\ (Emit => ops % 2 = 0)
             /\ AddPol(i, p, k) /\ Do([op |-> "addpol", i |-> i, p |-> p, k |-> k])
       \/ \E i \in One(Objs) : Sort(i) /\ Do([op |-> "sort", i |-> i])
       \/ \E i \in One(Objs), rev \in One(BOOLEAN), r \in One(IF Emit THEN 0..2 ELSE {0}) : LET n == Len(heap[i].bls)
                                                                         pm == Perm(n, rev, r) IN
             SortAs(i, pm) /\ Do([op |-> "sortas", i |-> i, idx |-> pm])
       \/ \E i \in One(Objs), lo \in One(Cuts), hi \in One(Cuts) : Room /\ UvRange(i, lo, hi) /\ Do([op |-> "range", i |-> i, lo |-> lo, hi |-> hi])
       \/ \E i \in One(Objs), inc \in One(Sel \cup {NoSel}), exc \in One(Sel \cup {<< >>}), st \in One(IF Emit THEN BOOLEAN ELSE {FALSE}) : Room /\ Subset(i, inc, exc)
             /\ Do([op |-> "subset", i |-> i, inc |-> inc, exc |-> exc, st |-> st])
       \/ \E i \in One(Objs), exc \in One(Sel), st \in One(IF Emit THEN BOOLEAN ELSE {FALSE}) : Emit /\ Room /\ Subset(i, NoSel, exc)
             /\ Do([op |-> "subset", i |-> i, inc |-> NoSel, exc |-> exc, st |-> st])
       \/ \E i \in One(Objs), to \in One(IF ~Emit THEN {"stokes", "linear"} ELSE {"stokes", "linear", "circular"}) : Room /\ To(i, to) /\ Do([op |-> "to", i |-> i, to |-> to])
       \/ \E x \in One(Lists), i \in One(Objs) : Len(lists[x]) < 3 /\ Add(x, i) /\ Do([op |-> "add", x |-> x, i |-> i])
       \/ \E x \in One(Lists), i \in One(Objs) : Emit /\ Len(lists[x]) < 3 /\ Add(x, i) /\ Do([op |-> "add", x |-> x, i |-> i])
       \/ \E x \in One(Lists), i \in One(Objs), j \in One(Objs) : Emit /\ i # j /\ Make(x, <<i, j>>) /\ Do([op |-> "make", x |-> x, l |-> <<i, j>>])
       \/ \E x \in One(Lists), i \in One(Objs) : Emit /\ lists[x] # << >> /\ i \notin Range(lists[x]) /\ Put(x, 1, i) /\ Do([op |-> "put", x |-> x, k |-> 1, i |-> i])
       \/ \E x \in One(Lists) : lists[x] # << >> /\ \E k \in One(1..Len(lists[x])) : Pop(x, k) /\ Do([op |-> "pop", x |-> x, k |-> k])
       \/ \E x \in One(Lists) : SortList(x) /\ Do([op |-> "sortlist", x |-> x])
       \/ \E x \in One(Lists), y \in One(Lists) : x # y /\ N + Len(lists[x]) <= MaxObj /\ CopyList(x, y) /\ Do([op |-> "copylist", x |-> x, y |-> y])
       \/ \E x \in One(Lists), y \in One(Lists), lo \in One(Cuts), hi \in One(Cuts) : x # y /\ N + Len(lists[x]) <= MaxObj /\ RangeList(x, y, lo, hi)
             /\ Do([op |-> "rangelist", x |-> x, y |-> y, lo |-> lo, hi |-> hi])
       \/ \E x \in One(Lists), y \in One(Lists), inc \in One(Sel \cup {NoSel}), exc \in One(Sel), st \in One(IF Emit THEN BOOLEAN ELSE {FALSE}) : Emit /\ x # y /\ N + Len(lists[x]) <= MaxObj
             /\ SubsetList(x, y, inc, exc) /\ Do([op |-> "subsetlist", x |-> x, y |-> y, inc |-> inc, exc |-> exc, st |-> st])
       \/ \E x \in One(Lists), y \in One(Lists), to \in One(IF ~Emit THEN {"stokes", "linear"} ELSE {"stokes", "linear", "circular"}) : Emit /\ x # y /\ N + Len(lists[x]) <= MaxObj
             /\ ToList(x, y, to) /\ Do([op |-> "tolist", x |-> x, y |-> y, to |-> to])
       \/ Emit /\ Len(pds) < 3 /\ PNew /\ Do([op |-> "pnew"])
       \/ \E i \in One(DOMAIN pds), n \in One(1..2), k \in One(20..23), full \in One(BOOLEAN) : Emit /\ Len(pds[i]) < 6 /\ PAdd(i, k, n, full) /\ Do([op |-> "padd", i |-> i, k |-> k, n |-> n, full |-> full])
       \/ \E i \in One(DOMAIN pds) : Emit /\ Len(pds) < 4 /\ pds[i] # << >> /\ PCopy(i) /\ Do([op |-> "pcopy", i |-> i])
       \/ \E i \in One(DOMAIN pds) : Emit /\ Len(pds) < 4 /\ pds[i] # << >> /\ \E a, b \in One(1..Len(pds[i])) : PPick(i, <<a, b>>) /\ Do([op |-> "ppick", i |-> i, idx |-> <<a, b>>])
       \/ \E i \in One(DOMAIN pds), rev \in One(BOOLEAN), r \in One(IF Emit THEN 0..2 ELSE {0}) : Emit /\ pds[i] # << >> /\ LET pm == Perm(Len(pds[i]), rev, r) IN
             PSort(i, pm) /\ Do([op |-> "psort", i |-> i, idx |-> pm])
       \/ \E i \in One(DOMAIN pds) : Emit /\ pds[i] # << >> /\ \E b \in One(1..Len(pds[i])), v \in One(Vals) : PSet(i, b, 1, v) /\ Do([op |-> "pset", i |-> i, b |-> b, c |-> 1, v |-> v])
Spec == Init /\ [][Next]_allvars
View == <<vars, pend, IF Emit THEN ops ELSE 0>>
EmitDone == ops = MaxOps => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.GEN_OUT)
=============================================================================
