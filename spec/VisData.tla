------------------------------ MODULE VisData ------------------------------
(***************************************************************************)
(* Visibility data in memory: integrations (baselines, uvw, and a spectrum *)
(* with weights and flags for each baseline and polarization) and lists of *)
(* them.  Selections, copies and conversions make new objects; sorting     *)
(* works on an object, and on all of the objects of a list.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES heap,        \* heap[i]: [t, f, bls, uv, pols, d]; d[p][b]: the spectrum <<re, im, weight, flag>> in each channel
          lists,       \* lists[x]: the objects in a list
          pds          \* pds[i]: the spectra of a polarization on its own
vars == <<heap, lists, pds>>
Pos == <<<<0, 0>>, <<3, 4>>, <<-5, 0>>, <<9, -12>>>>      \* east and north of the antennas
Range(s) == {s[i] : i \in 1..Len(s)}
N == Len(heap)
NewId == N + 1
Pick(s, idx) == [i \in 1..Len(idx) |-> s[idx[i]]]
Indices(s, T(_)) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : T(s[i]))
Key(bl) == 4096*bl[1] + bl[2]
RECURSIVE Order(_, _)
Order(bls, S) == IF S = {} THEN << >> ELSE
    LET x == CHOOSE x \in S : \A y \in S : Key(bls[x]) < Key(bls[y]) \/ (Key(bls[x]) = Key(bls[y]) /\ x <= y)
    IN <<x>> \o Order(bls, S \ {x})
SelectO(o, idx) == [o EXCEPT !.bls = Pick(o.bls, idx), !.uv = Pick(o.uv, idx), !.d = [p \in DOMAIN o.d |-> Pick(o.d[p], idx)]]
SortO(o) == SelectO(o, Order(o.bls, 1..Len(o.bls)))
Dist2(u) == u[1]*u[1] + u[2]*u[2]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
RangeO(o, lo, hi) == LET a == Min(lo, hi)
                         b == Max(lo, hi)
                     IN SelectO(o, Indices(o.uv, LAMBDA u : Dist2(u) >= a*a /\ Dist2(u) < b*b))
(* include and exclude: sequences of antennas, or <<0>> for not given *)
SubsetO(o, inc, exc) ==
    LET keep(a) == IF inc # <<0>> THEN a \in Range(inc) ELSE a \notin Range(exc)
    IN SelectO(o, Indices(o.bls, LAMBDA bl : keep(bl[1]) /\ keep(bl[2])))
(* polarizations *)
Comb(x, y, ar, ai, br, bi, dv) ==      \* (a x + b y)/dv, weights averaged, flags joined
    [i \in 1..Len(x) |-> [c \in 1..Len(x[i]) |->
       LET u == x[i][c]
           v == y[i][c]
       IN << (ar*u[1] - ai*u[2] + br*v[1] - bi*v[2]) \div dv, (ar*u[2] + ai*u[1] + br*v[2] + bi*v[1]) \div dv,
             (u[3] + v[3]) \div 2, Max(u[4], v[4]) >>]]
Has(o, ps) == ps \subseteq Range(o.pols)
CanStokes(o) == ~(\E p \in {"I", "Q", "U", "V"} : p \in Range(o.pols)) /\ (Has(o, {"XX", "YY"}) \/ Has(o, {"XY", "YX"}))
StokesO(o) ==
    LET a == Has(o, {"XX", "YY"})
        b == Has(o, {"XY", "YX"})
        ps == (IF a THEN <<"I", "Q">> ELSE << >>) \o (IF b THEN <<"U", "V">> ELSE << >>)
    IN [o EXCEPT !.pols = ps,
          !.d = [p \in Range(ps) |-> CASE p = "I" -> Comb(o.d["XX"], o.d["YY"], 1, 0, 1, 0, 1)
                                       [] p = "Q" -> Comb(o.d["XX"], o.d["YY"], 1, 0, -1, 0, 1)
                                       [] p = "U" -> Comb(o.d["XY"], o.d["YX"], 1, 0, 1, 0, 1)
                                       [] p = "V" -> Comb(o.d["XY"], o.d["YX"], 0, 1, 0, -1, 1)]]
CanLinear(o) == ~(\E p \in {"XX", "YY", "XY", "YX"} : p \in Range(o.pols)) /\ (Has(o, {"I", "Q"}) \/ Has(o, {"U", "V"}))
LinearO(o) ==
    LET a == Has(o, {"I", "Q"})
        b == Has(o, {"U", "V"})
        ps == (IF a THEN <<"XX", "YY">> ELSE << >>) \o (IF b THEN <<"XY", "YX">> ELSE << >>)
    IN [o EXCEPT !.pols = ps,
          !.d = [p \in Range(ps) |-> CASE p = "XX" -> Comb(o.d["I"], o.d["Q"], 1, 0, 1, 0, 2)
                                       [] p = "YY" -> Comb(o.d["I"], o.d["Q"], 1, 0, -1, 0, 2)
                                       [] p = "XY" -> Comb(o.d["U"], o.d["V"], 1, 0, 0, -1, 2)
                                       [] p = "YX" -> Comb(o.d["U"], o.d["V"], 1, 0, 0, 1, 2)]]
CanCirc(o) == Has(o, {"I", "V"}) \/ Has(o, {"Q", "U"})
CircO(o) ==
    LET a == Has(o, {"I", "V"})
        b == Has(o, {"Q", "U"})
        ps == (IF a THEN <<"RR", "LL">> ELSE << >>) \o (IF b THEN <<"RL", "LR">> ELSE << >>)
    IN [o EXCEPT !.pols = ps,
          !.d = [p \in Range(ps) |-> CASE p = "RR" -> Comb(o.d["I"], o.d["V"], 1, 0, 1, 0, 1)
                                       [] p = "LL" -> Comb(o.d["I"], o.d["V"], 1, 0, -1, 0, 1)
                                       [] p = "RL" -> Comb(o.d["Q"], o.d["U"], 1, 0, 0, 1, 1)
                                       [] p = "LR" -> Comb(o.d["Q"], o.d["U"], 1, 0, 0, -1, 1)]]
Convert(o, to) == CASE to = "stokes" -> StokesO(o) [] to = "linear" -> LinearO(o) [] to = "circular" -> CircO(o)
CanConvert(o, to) == CASE to = "stokes" -> CanStokes(o) [] to = "linear" -> CanLinear(o) [] to = "circular" -> CanCirc(o)
----------------------------------------------------------------------------
(* the spectra that the k-th set of data starts with *)
Code(p) == CASE p = "XX" -> 1 [] p = "YY" -> 2 [] p = "XY" -> 3 [] p = "YX" -> 4
             [] p = "I" -> 5 [] p = "Q" -> 6 [] p = "U" -> 7 [] p = "V" -> 8
Cell(k, p, b, c) == << 64*(7*k + 3*b + c + Code(p)), 64*(b*c - k), 64*(1 + ((k + b + c) % 3)), IF (k + b + c + Code(p)) % 4 = 0 THEN 1 ELSE 0 >>
Rows(k, p, n) == [b \in 1..n |-> [c \in 1..2 |-> Cell(k, p, b, c)]]
Fresh(k, t, bls, pols) ==
    [t |-> t, f |-> <<10, 11>>, bls |-> bls, pols |-> pols,
     uv |-> [b \in 1..Len(bls) |-> <<Pos[bls[b][1]][1] - Pos[bls[b][2]][1], Pos[bls[b][1]][2] - Pos[bls[b][2]][2]>>],
     d |-> [p \in Range(pols) |-> Rows(k, p, Len(bls))]]
New(o) == heap' = Append(heap, o) /\ UNCHANGED <<lists, pds>>
Upd(i, o) == heap' = [heap EXCEPT ![i] = o] /\ UNCHANGED <<lists, pds>>
Copy(i) == New(heap[i])
CopyBare(i) == New([heap[i] EXCEPT !.pols = << >>, !.d = [p \in {} |-> << >>]])
Set(i, p, b, c, v) == Upd(i, [heap[i] EXCEPT !.d[p][b][c] = v])
SetUv(i, b, v) == Upd(i, [heap[i] EXCEPT !.uv[b] = v])
SetFreq(i, c, v) == Upd(i, [heap[i] EXCEPT !.f[c] = v])
AddPol(i, p, k) == LET o == heap[i] IN
    Upd(i, [o EXCEPT !.pols = IF p \in Range(@) THEN @ ELSE Append(@, p),
                     !.d = [q \in DOMAIN o.d \cup {p} |-> IF q = p THEN Rows(k, p, Len(o.bls)) ELSE o.d[q]]])
Sort(i) == Upd(i, SortO(heap[i]))
SortAs(i, idx) == Upd(i, SelectO(heap[i], idx))
UvRange(i, lo, hi) == New(RangeO(heap[i], lo, hi))
Subset(i, inc, exc) == New(SubsetO(heap[i], inc, exc))
To(i, to) == IF CanConvert(heap[i], to) THEN New(Convert(heap[i], to)) ELSE UNCHANGED vars
(* lists *)
Fits(x, i) == LET l == lists[x] IN
    /\ \A k \in Range(l) : heap[k].t # heap[i].t
    /\ l # << >> => /\ Len(heap[l[1]].bls) \in {0, Len(heap[i].bls)}
                    /\ Len(heap[l[1]].pols) \in {0, Len(heap[i].pols)}
Add(x, i) == lists' = (IF Fits(x, i) THEN [lists EXCEPT ![x] = Append(@, i)] ELSE lists) /\ UNCHANGED <<heap, pds>>
Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Pop(x, k) == lists' = [lists EXCEPT ![x] = Drop(@, k)] /\ UNCHANGED <<heap, pds>>
RECURSIVE ByTime(_)
ByTime(l) == IF l = << >> THEN << >> ELSE
    LET k == CHOOSE k \in 1..Len(l) : \A j \in 1..Len(l) : heap[l[k]].t < heap[l[j]].t \/ (heap[l[k]].t = heap[l[j]].t /\ k <= j)
    IN <<l[k]>> \o ByTime(Drop(l, k))
SortList(x) == /\ lists' = [lists EXCEPT ![x] = ByTime(@)]
               /\ UNCHANGED pds
               /\ heap' = [i \in 1..N |-> IF i \in Range(lists[x]) THEN SortO(heap[i]) ELSE heap[i]]
(* a new list y, with new objects made from those of x *)
Make(x, l) == lists' = [lists EXCEPT ![x] = l] /\ UNCHANGED <<heap, pds>>
Put(x, k, i) == lists' = [lists EXCEPT ![x][k] = i] /\ UNCHANGED <<heap, pds>>
Derive(x, y, F(_)) == /\ UNCHANGED pds /\ heap' = heap \o [k \in 1..Len(lists[x]) |-> F(heap[lists[x][k]])]
                      /\ lists' = [lists EXCEPT ![y] = [k \in 1..Len(lists[x]) |-> N + k]]
CopyList(x, y) == Derive(x, y, LAMBDA o : o)
RangeList(x, y, lo, hi) == Derive(x, y, LAMBDA o : RangeO(o, lo, hi))
SubsetList(x, y, inc, exc) == Derive(x, y, LAMBDA o : SubsetO(o, inc, exc))
ToList(x, y, to) == IF \A i \in Range(lists[x]) : CanConvert(heap[i], to) THEN Derive(x, y, LAMBDA o : Convert(o, to)) ELSE UNCHANGED vars
(* polarizations on their own *)
PNew == pds' = Append(pds, << >>) /\ UNCHANGED <<heap, lists>>
Ones(rows) == [b \in 1..Len(rows) |-> [c \in 1..2 |-> <<rows[b][c][1], rows[b][c][2], 1, 0>>]]
PAdd(i, k, n, full) == LET r == Rows(k, "XX", n) IN
    pds' = [pds EXCEPT ![i] = @ \o (IF full THEN r ELSE Ones(r))] /\ UNCHANGED <<heap, lists>>
PCopy(i) == pds' = Append(pds, pds[i]) /\ UNCHANGED <<heap, lists>>
PPick(i, idx) == pds' = Append(pds, Pick(pds[i], idx)) /\ UNCHANGED <<heap, lists>>
PSort(i, idx) == pds' = [pds EXCEPT ![i] = Pick(@, idx)] /\ UNCHANGED <<heap, lists>>
PSet(i, b, c, v) == pds' = [pds EXCEPT ![i][b][c] = v] /\ UNCHANGED <<heap, lists>>
----------------------------------------------------------------------------
Shapes == \A i \in 1..N : LET o == heap[i] IN DOMAIN o.d = Range(o.pols) /\ \A p \in DOMAIN o.d : Len(o.d[p]) = Len(o.bls) /\ Len(o.uv) = Len(o.bls)
RoundTrip == \A i \in 1..N : CanStokes(heap[i]) /\ Cardinality(Range(heap[i].pols)) \in {2, 4} =>
    LET x == LinearO(StokesO(heap[i])) IN \A p \in DOMAIN x.d, b \in 1..Len(x.bls) : \A c \in 1..Len(x.d[p][b]) :
        x.d[p][b][c][1] = heap[i].d[p][b][c][1] /\ x.d[p][b][c][2] = heap[i].d[p][b][c][2]
SubsetsAgree == \A i \in 1..N : LET o == heap[i] IN
    /\ SubsetO(o, <<1, 2, 3, 4>>, << >>) = o
    /\ SubsetO(SubsetO(o, <<1, 2>>, << >>), <<0>>, <<3, 4>>) = SubsetO(o, <<1, 2>>, << >>)
    /\ SortO(SortO(o)) = SortO(o)
=============================================================================
