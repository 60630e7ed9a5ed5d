------------------------------ MODULE DelaysMC ------------------------------
EXTENDS Delays, Randomization, Json, IOUtils, CSV, TLC
CONSTANTS MaxOps, Emit, Ns, MaxL
VARIABLES ph, N, L, prev, next, i, out, hist, ops
vars == <<ph, N, L, prev, next, i, out, hist, ops>>
R(a, b) == RandomElement(a..b)
Bool(x) == R(0, 1) = x
----------------------------------------------------------------------------
(* ---- the windows, one after the other ---- *)
Start == Emit = "none" /\ ph = "new" /\ ph' = "run" /\ (\E n \in Ns : \E l \in n..MaxL : N' = n /\ L' = l /\ out' = [k \in 0..(l-1) |-> << >>]) /\ (\E a, b \in BOOLEAN : prev' = a /\ next' = b) /\ i' = 0 /\ UNCHANGED <<hist, ops>>
(* the window that is used for a sample, and how far the sample is from its ends *)
Window == ph = "run" /\ i < Halves(L, N) /\ i' = i + 1 /\ UNCHANGED <<ph, N, L, prev, next, hist, ops>>
          /\ out' = [k \in 0..(L-1) |-> IF k \div (N \div 2) = i /\ HalfOf(i, L, N, prev, next) # "zero" THEN Append(out[k], [w |-> i, before |-> k - (i*(N \div 2) - (N \div 4)), after |-> i*(N \div 2) - (N \div 4) + N - 1 - k]) ELSE out[k]]
Stop == ph = "run" /\ i = Halves(L, N) /\ ph' = "done" /\ UNCHANGED <<N, L, prev, next, i, out, hist, ops>>
(* a window for every sample, one only, with a quarter of it at either side; with neighbours at both sides nothing is left out *)
Tiled == ph = "done" => \A k \in 0..(L-1) : /\ Len(out[k]) <= 1 /\ ((prev /\ next) => Len(out[k]) = 1)
                                            /\ (Len(out[k]) = 1 => out[k][1].before >= N \div 4 /\ out[k][1].after >= N \div 4)
                                            /\ ((k >= N \div 2 /\ k < (L \div N)*N) => Len(out[k]) = 1)
(* of a block between its neighbours, no window depends on where the block ends *)
Whole == ph = "done" /\ prev /\ next => \A h \in 0..(Halves(L, N)-1) : HalfOf(h, L, N, prev, next) = "whole"
----------------------------------------------------------------------------
(* ---- spectra and beams, for all of a few ---- *)
ASSUME \A n \in 1..6 : \A b \in -13..13 : /\ {Moved(x, n, b, TRUE) : x \in 1..n} = 1..n
                                          /\ \A x \in 1..n : Moved(Moved(x, n, b, TRUE), n, -b, TRUE) = x
                                          /\ \A x \in 1..n : Moved(x, n, b, FALSE) # 0 => Moved(x, n, b, FALSE) = Moved(x, n, b, TRUE)
                                          /\ Cardinality({x \in 1..n : Moved(x, n, b, FALSE) = 0}) = (IF Abs(b) > n THEN n ELSE Abs(b))
ASSUME \A d \in -20..20 : \A m1, m2 \in 1..6 : LET ms == <<m1, m2>> IN Bins(-d, ms, 1, 7) = -Bins(d, ms, 1, 7) /\ (m1 <= m2 => Bins(d, ms, 1, 7) = 0) /\ (d > 0 /\ m1 > m2 => Lag(d, ms, 1) > 0)
ASSUME \A n \in 1..300 : Pow2(n, 1) >= n /\ Pow2(n, 1) < 2*n
(* a plane wave from where the beam points to adds up; one from elsewhere gives no more *)
Ants == [stand: {1}, pos: {<<0, 0, 0>>, <<1, 0, 2>>, <<-1, 3, 0>>}, cable: {0, 3}, pol: {0}, good: {TRUE, FALSE}]
Norm(z) == z[1]*z[1] + z[2]*z[2]
ASSUME \A a, b, c \in Ants : \A p \in {"zenith", "west"} : \A k \in 1..2 : LET as == <<a, b, c>> n == Cardinality(In(as, 0))
            wave(q) == [j \in 1..3 |-> Turn(-k*Quarter(as, j, q))] IN
            /\ BeamOf(as, p, k, wave(p), 0) = Times(<<n, 0>>, Turn(-k*First(as, p)))
            /\ Norm(BeamOf(as, p, k, wave("north"), 0)) <= n*n
(* and where the array stands does not matter *)
ASSUME \A a, b \in Ants : \A p \in {"zenith", "east"} : LET as == <<a, b>> moved == [j \in 1..2 |-> [as[j] EXCEPT !.pos = <<as[j].pos[1] + 5, as[j].pos[2] - 2, as[j].pos[3] + 1>>]] IN
            \A j \in 1..2 : Late(as, j, p) = Late(moved, j, p) /\ BeamOf(as, p, 1, << <<1, 2>>, <<3, -1>> >>, 0) = BeamOf(moved, p, 1, << <<1, 2>>, <<3, -1>> >>, 0)
ASSUME \A x, y \in {<<1, 2>>, <<-3, 1>>, <<0, 0>>} : \A u \in BOOLEAN : Norm(Left(x, y, u)) + Norm(Right(x, y, u)) = 2*(Norm(x) + Norm(y)) /\ Left(x, y, u) = Right(x, y, ~u)
----------------------------------------------------------------------------
(* ---- histories for the code ---- *)
GInc(o) == [op |-> "inc", ms |-> [c \in 1..R(2, 4) |-> R(1, 6)], d |-> RandomElement({0, R(-60, 60), R(1, 60), R(1, 20)}), t |-> R(1, 60), n |-> R(1, 9), wrap |-> Bool(o % 2), fill |-> RandomElement({"nan", "num", "zero"}), type |-> RandomElement({"f8", "f4", "i4"}), list |-> RandomElement({FALSE, FALSE, TRUE}), back |-> Bool(o % 2)]
GLag(o) == [op |-> "lag", ms |-> [c \in 1..R(1, 4) |-> R(1, 6)], d |-> R(-50, 50), list |-> Bool(o % 2)]
GCoh(o) == [op |-> "coh", set |-> R(1, 6), m |-> R(1, 3), r |-> R(0, 7), j |-> RandomElement({0, 0, 1, -1}), prev |-> RandomElement({"none", "ok", "ok", "ok", "short"}), next |-> RandomElement({"none", "ok", "ok", "ok", "short"}), taper |-> Bool(o % 2), cache |-> RandomElement({TRUE, TRUE, FALSE}), type |-> RandomElement({"c8", "c16"}), few |-> R(1, 12) = 1]
Data(a) == [re |-> R(-3, 3), im |-> R(-3, 3)]
GBeam(o) == LET n == R(1, 5) nch == RandomElement({0, 1, 2, 3}) nt == R(1, 3) IN
            [op |-> "beam", ants |-> [a \in 1..n |-> [stand |-> IF a = 1 THEN R(1, 256) ELSE RandomElement({256, 257, 260, R(1, 256)}), pos |-> <<R(-3, 3), R(-3, 3), R(-3, 3)>>, cable |-> R(0, 5), pol |-> R(0, 1), good |-> RandomElement({TRUE, TRUE, TRUE, FALSE})]],
             dir |-> RandomElement({"zenith", "north", "east", "south", "west"}), angle |-> RandomElement({"float", "int", "astropy", "ephem"}), nch |-> nch, nt |-> nt, rep |-> RandomElement({1, 1, 11, 12, 40}), type |-> RandomElement({"c8", "c16", "f8", "i2", "i1", "ci8"}),
             re |-> [a \in 1..n |-> [c \in 1..(IF nch = 0 THEN 1 ELSE nch) |-> [t \in 1..nt |-> R(-3, 3)]]], im |-> [a \in 1..n |-> [c \in 1..(IF nch = 0 THEN 1 ELSE nch) |-> [t \in 1..nt |-> R(-3, 3)]]],
             strided |-> Bool(o % 2), flist |-> Bool(o % 2)]
GBad(o) == [op |-> "bad", alt |-> RandomElement({-1, 91, -90, 180, 45, 0, 90}), az |-> RandomElement({-1, 361, -360, 0, 360, 180}), angle |-> RandomElement({"float", "astropy", "ephem"})]
GCirc(o) == [op |-> "circ", x |-> <<R(-9, 9), R(-9, 9)>>, y |-> <<R(-9, 9), R(-9, 9)>>, iau |-> Bool(o % 2)]
Do == Emit = "ops" /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED <<ph, N, L, prev, next, i, out>>
      /\ \E e \in {CASE R(1, 12) <= 3 -> GInc(ops) [] R(1, 9) <= 1 -> GLag(ops) [] R(1, 8) <= 3 -> GCoh(ops) [] R(1, 10) <= 8 -> GBeam(ops) [] R(1, 2) = 1 -> GBad(ops) [] OTHER -> GCirc(ops)} : hist' = Append(hist, e)
Init == ph = "new" /\ N = 4 /\ L = 4 /\ prev = FALSE /\ next = FALSE /\ i = 0 /\ out = << >> /\ hist = << >> /\ ops = 0
Next == Start \/ Window \/ Stop \/ Do
Spec == Init /\ [][Next]_vars
EmitDone == (Emit = "ops" /\ ops = MaxOps) => CSVWrite("%1$s", <<ToJson([ops |-> hist])>>, IOEnv.GEN_OUT)
=============================================================================
