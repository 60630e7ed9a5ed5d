------------------------------- MODULE Delays -------------------------------
(* Signals that arrive late and are moved back: dispersion undone in spectra (incoherent) and in voltages (coherent), and the signals of an array put in
   phase and added to a beam. *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Sum(_)
Sum(s) == IF s = << >> THEN 0 ELSE s[1] + Sum(SubSeq(s, 2, Len(s)))
----------------------------------------------------------------------------
(* ---- dispersion ----  A frequency is 120/m MHz for a whole m, a dispersion measure is d/1000 pc/cm^3, so that the delay is 4148.808 s * d/1000 * m^2/14400,
   which is d*172867*m^2/600000 ms.  Delays are relative to the highest of the frequencies: the smallest m. *)
Lag(d, ms, i) == d*172867*(ms[i]*ms[i] - Min({ms[j]*ms[j] : j \in 1..Len(ms)}))
LagUs(d, ms, i) == IF Len(ms) = 1 THEN (d*172867*ms[1]*ms[1]) \div 600 ELSE Lag(d, ms, i) \div 600
(* in integrations of t ms, to the nearest; Tie if there is none *)
Half(n, q) == IF n >= 0 THEN (2*n + q) \div (2*q) ELSE -((q - 2*n) \div (2*q))
Bins(d, ms, i, t) == Half(Lag(d, ms, i), 600000*t)
Tie(d, ms, t) == \E i \in 1..Len(ms) : (2*Abs(Lag(d, ms, i))) % (1200000*t) = 600000*t
(* what is at time x of a channel that is n times long and comes b late: the number of the sample, 0 is the filling *)
Moved(x, n, b, wrap) == IF wrap THEN ((x - 1 + b) % n) + 1 ELSE IF x + b \in 1..n THEN x + b ELSE 0
----------------------------------------------------------------------------
(* ---- coherent dedispersion of a block of L samples in windows of N, of which the middle N/2 are good.  Window i (from 0) gives the samples from i*N/2 on; it starts N/4 before
   them, in what came before for the first, and ends N/4 after, in what comes next for the last.  Without what came before the first half window is not known and is left zero;
   without what comes next that holds for what lies beyond the last whole window, and the window that ends last is filled with zeros. *)
Halves(L, N) == (L + (N \div 2) - 1) \div (N \div 2)
HalfOf(i, L, N, prev, next) == IF i = 0 /\ ~prev THEN "zero" ELSE IF i >= 2*(L \div N) /\ ~next THEN "zero"
                               ELSE IF i*(N \div 2) - (N \div 4) + N > L /\ ~next THEN "cut" ELSE "whole"
RECURSIVE Pow2(_, _)
Pow2(n, p) == IF p >= n THEN p ELSE Pow2(n, 2*p)
----------------------------------------------------------------------------
(* ---- beams ----  Positions in quarter wave lengths, delays in quarter periods; complex numbers <<re, im>> *)
Times(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Turn(q) == CASE q % 4 = 0 -> <<1, 0>> [] q % 4 = 1 -> <<0, 1>> [] q % 4 = 2 -> <<-1, 0>> [] q % 4 = 3 -> <<0, -1>>
Dir(p) == CASE p = "zenith" -> <<0, 0, 1>> [] p = "north" -> <<0, 1, 0>> [] p = "east" -> <<1, 0, 0>> [] p = "south" -> <<0, -1, 0>> [] p = "west" -> <<-1, 0, 0>>
Dot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
(* the delay of antenna i, times the number of the stands that make up the centre of the array (not the outliers) *)
Core(as) == {i \in 1..Len(as) : as[i].stand <= 256}
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Late(as, i, p) == LET s == Dir(p) c == Core(as) IN Cardinality(c)*(as[i].cable - Dot(as[i].pos, s)) + SumOver([j \in 1..Len(as) |-> Dot(as[j].pos, s)], c)
Quarter(as, i, p) == as[i].cable - Dot(as[i].pos, Dir(p))
First(as, p) == Min({Quarter(as, i, p) : i \in 1..Len(as)})
In(as, pol) == {i \in 1..Len(as) : as[i].pol = pol /\ as[i].good}
RECURSIVE Adding(_, _, _, _, _)
Adding(as, p, k, data, S) == IF S = {} THEN <<0, 0>> ELSE LET i == Max(S) IN Plus(Adding(as, p, k, data, S \ {i}), Times(Turn(k*(Quarter(as, i, p) - First(as, p))), data[i]))
(* the beam, times the number of its antennas, at k times the frequency *)
BeamOf(as, p, k, data, pol) == Adding(as, p, k, data, In(as, pol))
Pols(as) == IF In(as, 0) = {} THEN <<1>> ELSE IF In(as, 1) = {} THEN <<0>> ELSE <<0, 1>>
(* circular polarizations, times the root of two *)
Left(x, y, iau) == Plus(x, Times(IF iau THEN <<0, 1>> ELSE <<0, -1>>, y))
Right(x, y, iau) == Plus(x, Times(IF iau THEN <<0, -1>> ELSE <<0, 1>>, y))
=============================================================================
