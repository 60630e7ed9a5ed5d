------------------------------ MODULE VisFile ------------------------------
(***************************************************************************)
(* Visibility files.  A writer is given data sets (one polarization of one *)
(* integration: a list of baselines and a spectrum for each of them) in    *)
(* any order and writes one file; a reader selects integrations from it.   *)
(*                                                                         *)
(* Antennas are positions in conf.stands.  A spectrum is made of values    *)
(* that say where they come from: data set, antennas, polarization, channel*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES conf,   \* [fmt, stands (identifiers), pos (<<east, north, up>>), pols, bands, chans, map (antenna -> number in the file)]
          data,   \* the data sets added so far: [k, t, pol, int, wgt, bls]
          state,  \* "open", "written", "refused"
          rows    \* the rows of the file: [t, int, a, b, cells]
vars == <<conf, data, state, rows>>

NChan == conf.bands * conf.chans
Val(d, a, b, c) == << 1000*d.k + 100*a + 10*b, 10*d.pol + c, IF d.wgt THEN 1 + ((d.k + 2*a + 3*b + c + d.pol) % 7) ELSE 1 >>
Range(s) == {s[i] : i \in 1..Len(s)}
Times(ds) == {ds[i].t : i \in 1..Len(ds)}
At(ds, t) == SelectSeq(ds, LAMBDA d : d.t = t)
(* what can be written: every integration has each polarization once, all with the same baselines *)
Complete(ds) == /\ ds # << >>
                /\ \A t \in Times(ds) : LET g == At(ds, t) IN
                     /\ Len(g) = Len(conf.pols)
                     /\ {d.pol : d \in Range(g)} = Range(conf.pols)
                     /\ \A x, y \in Range(g) : Range(x.bls) = Range(y.bls)
(* a Stokes axis in FITS runs in steps of one *)
Axis == \A i \in 1..Len(conf.pols) - 1 : conf.pols[i + 1] = conf.pols[i] + 1
Writable(ds) == Complete(ds) /\ (conf.fmt # "ms" => Axis)

Open(c) == conf = c /\ data = << >> /\ state = "open" /\ rows = << >>
Add(d) == state = "open" /\ data' = Append(data, d) /\ UNCHANGED <<conf, state, rows>>

(* how the file is put together: by time, then by baseline number *)
Number(bl) == 65536 * conf.map[bl[1]] + conf.map[bl[2]]
RECURSIVE SortBy(_, _)
SortBy(S, key) == IF S = {} THEN << >>
                     ELSE LET x == CHOOSE x \in S : \A y \in S : key[x] <= key[y] IN <<x>> \o SortBy(S \ {x}, key)
RECURSIVE Concat(_)
Concat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Concat(Tail(ss))
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
RowsAt(ds, t) ==
    LET g == At(ds, t)
        ofPol(p) == CHOOSE d \in Range(g) : d.pol = p
        bls == SortBy(Range(g[1].bls), [x \in Range(g[1].bls) |-> Number(x)])
    IN [i \in 1..Len(bls) |->
         [t |-> t, int |-> ofPol(conf.pols[1]).int, a |-> bls[i][1], b |-> bls[i][2],
          cells |-> [p \in Range(conf.pols) |->
                       LET d == ofPol(p)
                           w == d.bls[Pos(d.bls, bls[i])]       \* the row of the data set that is for this baseline
                       IN [c \in 1..NChan |-> Val(d, w[1], w[2], c)]]]]
Build(ds) == LET ts == SortBy(Times(ds), [t \in Times(ds) |-> t]) IN Concat([i \in 1..Len(ts) |-> RowsAt(ds, ts[i])])
Write == /\ state = "open"
         /\ IF Writable(data) THEN state' = "written" /\ rows' = Build(data)
            ELSE state' = "refused" /\ UNCHANGED rows
         /\ UNCHANGED <<conf, data>>

(* reading *)
Stored == LET S == {rows[i].t : i \in 1..Len(rows)} IN SortBy(S, [t \in S |-> t])
Keep(r, auto, lo, hi) ==
    LET e == conf.pos[r.a][1] - conf.pos[r.b][1]
        n == conf.pos[r.a][2] - conf.pos[r.b][2]
        d == e*e + n*n
    IN (auto \/ r.a # r.b) /\ d > lo /\ d <= hi                \* the range is between whole squares of meters
Integration(i, auto, lo, hi) == {rows[k] : k \in {k \in 1..Len(rows) : rows[k].t = Stored[i] /\ Keep(rows[k], auto, lo, hi)}}
----------------------------------------------------------------------------
(* what is in the file is what was given, and nothing else *)
Faithful ==
    state = "written" =>
      /\ Range(Stored) = Times(data)
      /\ \A i \in 1..Len(data) : LET d == data[i] IN \A j \in 1..Len(d.bls), c \in 1..NChan :
           \E k \in 1..Len(rows) : /\ rows[k].t = d.t /\ rows[k].a = d.bls[j][1] /\ rows[k].b = d.bls[j][2]
                                   /\ rows[k].cells[d.pol][c] = Val(d, d.bls[j][1], d.bls[j][2], c)
      /\ \A x, y \in 1..Len(rows) : (rows[x].t = rows[y].t /\ rows[x].a = rows[y].a /\ rows[x].b = rows[y].b) => x = y
      /\ Len(rows) * Len(conf.pols) = LET RECURSIVE N(_)
                                          N(i) == IF i = 0 THEN 0 ELSE Len(data[i].bls) + N(i - 1)
                                      IN N(Len(data))
InOrder == \A x \in 1..Len(rows) - 1 :
    \/ rows[x].t < rows[x + 1].t
    \/ rows[x].t = rows[x + 1].t /\ Number(<<rows[x].a, rows[x].b>>) < Number(<<rows[x + 1].a, rows[x + 1].b>>)
OnlyComplete == state = "written" => Complete(data)
=============================================================================
