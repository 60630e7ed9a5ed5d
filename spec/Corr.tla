------------------------------- MODULE Corr -------------------------------
(***************************************************************************)
(* The FX correlator.  Inputs (stand, polarization) carry sampled signals  *)
(* with integer values.  The F stage cuts each input, advanced by its      *)
(* delay, into windows and transforms them; the X stage multiplies the     *)
(* transforms of the two inputs of a baseline and averages over the        *)
(* windows that are valid in both.  Windows may be processed in any order. *)
(*                                                                         *)
(* Transforms of length N use the N-th roots of unity times Scale(N):      *)
(* exact Gaussian integers for N = 1, 2, 4 and three digits otherwise.     *)
(* Frequencies are in units of the sample rate over N.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES par, todo, acc, nact
vars == <<par, todo, acc, nact>>

Exact(n) == n \in {1, 2, 4}
Scale(n) == IF Exact(n) THEN 1 ELSE 1000
Cos(n) == CASE n = 1 -> <<1>> [] n = 2 -> <<1, -1>> [] n = 4 -> <<1, 0, -1, 0>>
            [] n = 3 -> <<1000, -500, -500>>
            [] n = 5 -> <<1000, 309, -809, -809, 309>>
            [] n = 6 -> <<1000, 500, -500, -1000, -500, 500>>
            [] n = 8 -> <<1000, 707, 0, -707, -1000, -707, 0, 707>>
Sin(n) == CASE n = 1 -> <<0>> [] n = 2 -> <<0, 0>> [] n = 4 -> <<0, 1, 0, -1>>
            [] n = 3 -> <<0, 866, -866>>
            [] n = 5 -> <<0, 951, 588, -588, -951>>
            [] n = 6 -> <<0, 866, 866, 0, -866, -866>>
            [] n = 8 -> <<0, 707, 1000, 707, 0, -707, -1000, -707>>
Root(n, k) == LET i == (k % n) + 1 IN <<Cos(n)[i], Sin(n)[i]>>

CMul(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Conj(a) == <<a[1], -a[2]>>
Zero == <<0, 0>>
RECURSIVE CSum(_, _)
CSum(f, S) == IF S = {} THEN Zero ELSE LET x == CHOOSE x \in S : TRUE IN CAdd(f[x], CSum(f, S \ {x}))
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : y >= x

(* par: real, L channels, ov overlap, clip, win window weights, fc central frequency,
        ants sequence of [stand, pol, d delay in samples per channel, sig samples <<re, im>>],
        p1, p2 the polarizations of the two sides of a baseline *)
N == IF par.real THEN 2 * par.L ELSE par.L
Chans == 1..par.L
Freq(c) == IF par.real THEN c - 1 ELSE par.fc + (c - 1 - (par.L \div 2))
Base(c) == IF par.real THEN c - 1 ELSE c - 1 - (par.L \div 2)        \* frequency in the band
Ref == (par.L \div 2) + 1

Ins(p) == SelectSeq([i \in 1..Len(par.ants) |-> i], LAMBDA i : par.ants[i].pol = p)
Used == {i \in 1..Len(par.ants) : par.ants[i].pol \in {par.p1, par.p2}}
MinDelay == Min({par.ants[i].d[Ref] : i \in Used})
Fifo(i) == par.ants[i].d[Ref] - MinDelay
Left == Len(par.ants[1].sig) - Max({Fifo(i) : i \in Used})           \* samples that all inputs have
Start(j) == (N * j) \div par.ov
Windows == {j \in 0..(Left * par.ov) : Start(j) + N <= Left}

Raw(i, j, k) == par.ants[i].sig[Fifo(i) + Start(j) + k + 1]
Valid(i, j) == \/ par.clip = 0
               \/ \A k \in 0..(N-1) : LET x == Raw(i, j, k) IN x[1]*x[1] + x[2]*x[2] < par.clip * par.clip
(* transform of window j of input i at channel c, with the phase of the delay of the channel *)
F(i, j, c) ==
    LET turn == Freq(c) * (par.ants[i].d[c] - MinDelay) - Base(c) * Fifo(i)
    IN CSum([k \in 0..(N-1) |->
                LET x == Raw(i, j, k)
                    w == par.win[k+1]
                IN CMul(<<w*x[1], w*x[2]>>, Root(N, turn - Base(c) * k))], 0..(N-1))

(* baselines in the order in which they are given *)
RECURSIVE Flat(_, _, _)
Flat(n, i, off) == IF i > n THEN << >> ELSE [x \in 1..(n - (i + off) + 1) |-> <<i, i + off + x - 1>>] \o Flat(n, i+1, off)
Pairs(auto) == LET n == Len(Ins(par.p1)) IN Flat(n, 1, IF auto THEN 0 ELSE 1)
Baselines(auto) == LET ps == Pairs(auto) IN [b \in 1..Len(ps) |-> <<Ins(par.p1)[ps[b][1]], Ins(par.p2)[ps[b][2]]>>]

(* closed form: the average of a baseline, times N, Scale^2 and the number of windows *)
Good(i, k) == {j \in Windows : Valid(i, j) /\ Valid(k, j)}
Vis(i, k, c) == CSum([j \in Windows |-> IF Valid(i, j) /\ Valid(k, j) THEN CMul(F(i, j, c), Conj(F(k, j, c))) ELSE Zero], Windows)
----------------------------------------------------------------------------
(* the X stage, window by window *)
InitWith(p) == /\ par = p /\ todo = {} /\ acc = << >> /\ nact = << >>
Begin == LET bs == Baselines(TRUE) IN
         /\ todo' = Windows
         /\ acc' = [b \in 1..Len(bs) |-> [c \in Chans |-> Zero]]
         /\ nact' = [b \in 1..Len(bs) |-> 0]
         /\ UNCHANGED par
Integrate(j) ==
    LET bs == Baselines(TRUE) IN
    /\ j \in todo
    /\ todo' = todo \ {j}
    /\ acc' = [b \in 1..Len(bs) |-> [c \in Chans |->
                IF Valid(bs[b][1], j) /\ Valid(bs[b][2], j)
                THEN CAdd(acc[b][c], CMul(F(bs[b][1], j, c), Conj(F(bs[b][2], j, c)))) ELSE acc[b][c]]]
    /\ nact' = [b \in 1..Len(bs) |-> nact[b] + IF Valid(bs[b][1], j) /\ Valid(bs[b][2], j) THEN 1 ELSE 0]
    /\ UNCHANGED par
----------------------------------------------------------------------------
(* Properties *)
Done == todo = {} /\ acc # << >>
Expected == Done => \A b \in 1..Len(acc) : LET bl == Baselines(TRUE)[b] IN
                /\ nact[b] = Cardinality(Good(bl[1], bl[2]))
                /\ \A c \in Chans : acc[b][c] = Vis(bl[1], bl[2], c)
Hermitian == Done => \A i, k \in Used, c \in Chans : Vis(i, k, c) = Conj(Vis(k, i, c))
AutoIsPower == Done => \A i \in Used, c \in Chans : Vis(i, i, c)[2] = 0 /\ Vis(i, i, c)[1] >= 0
(* Parseval: over the channels of a window there is the power of its samples *)
Power == (Done /\ ~par.real /\ Exact(N) /\ par.clip = 0 /\ par.ov = 1 /\ \A k \in 1..N : par.win[k] = 1) =>
    \A i \in Used :
        CSum([c \in Chans |-> Vis(i, i, c)], Chans)[1]
          = N * CSum([x \in (Windows \X (0..(N-1))) |-> LET s == Raw(i, x[1], x[2]) IN <<s[1]*s[1] + s[2]*s[2], 0>>],
                     Windows \X (0..(N-1)))[1]
=============================================================================
