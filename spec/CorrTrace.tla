----------------------------- MODULE CorrTrace -----------------------------
(* Recorded runs of the correlator and spectrometer against Corr *)
EXTENDS Corr, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, dead
allvars == <<vars, l, dead>>
E == Trace[l]
Abs(x) == IF x < 0 THEN -x ELSE x
Pow2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16 [] OTHER -> 32
Unit == IF Exact(N) THEN 10000 ELSE 1000000                \* what is recorded is in these units
Tol == IF Exact(N) THEN 40 ELSE 13000 * N
Near(x, y) == Abs(x - y) <= Tol
(* v of a sum over n windows and a correction by g *)
Norm(v, n, g) == IF Exact(N) THEN (v * Unit) \div (N * n * g) ELSE v \div (N * n * g)
Same(x, v, n, g) == n = 0 \/ (Len(x) = 2 /\ Near(x[1], Norm(v[1], n, g)) /\ Near(x[2], Norm(v[2], n, g)))
Gain(i, k) == IF par.gain THEN Pow2(par.ants[i].g + par.ants[k].g) ELSE 1

Ids(bs) == [b \in 1..Len(bs) |-> <<par.ants[bs[b][1]].stand, par.ants[bs[b][1]].pol,
                                   par.ants[bs[b][2]].stand, par.ants[bs[b][2]].pol>>]
FreqOk == E.freq = [c \in Chans |-> Freq(c)]
NW == Cardinality(Windows)

FxOk == LET bs == Baselines(par.auto) IN
    /\ Len(E.vis) = Len(bs)
    /\ \A b \in 1..Len(bs), c \in Chans :
         Same(E.vis[b][c], Vis(bs[b][1], bs[b][2], c), Cardinality(Good(bs[b][1], bs[b][2])), Gain(bs[b][1], bs[b][2]))

(* the four Stokes products of stands a and b; U and V from X of the first and Y of the second *)
Stokes(f, a, b, c, s) ==
    LET X == Ins(0)
        Y == Ins(1)
        xx == f[<<X[a], X[b]>>][c]
        yy == f[<<Y[a], Y[b]>>][c]
        xy == f[<<X[a], Y[b]>>][c]
    IN CASE s = 1 -> CAdd(xx, yy) [] s = 2 -> CSub(xx, yy)
         [] s = 3 -> <<2*xy[1], 0>> [] s = 4 -> <<2*xy[2], 0>>
FxStokesOk ==
    LET ps == Pairs(par.auto)
        ii == {Ins(0)[k] : k \in 1..Len(Ins(0))} \cup {Ins(1)[k] : k \in 1..Len(Ins(1))}
        f == [x \in ii \X ii |-> [c \in Chans |-> Vis(x[1], x[2], c)]]
    IN /\ Len(E.vis) = 4
       /\ \A s \in 1..4 :
            /\ Len(E.vis[s]) = Len(ps)
            /\ \A b \in 1..Len(ps), c \in Chans :
                 Same(E.vis[s][b][c], Stokes(f, ps[b][1], ps[b][2], c, s), NW, Gain(Ins(0)[ps[b][1]], Ins(1)[ps[b][2]]))

(* spectra: the power of each input *)
SpecOk ==
    /\ Len(E.psd) = Len(par.ants)
    /\ \A i \in 1..Len(par.ants), c \in Chans :
         Same(<<E.psd[i][c], 0>>, Vis(i, i, c), Cardinality(Good(i, i)), 1)
(* Stokes spectra: windows in which both polarizations are valid *)
PStokesOk ==
    LET X == Ins(0)
        Y == Ins(1)
    IN \A i \in 1..Len(X), c \in Chans :
        LET ws == {j \in Windows : Valid(X[i], j) /\ Valid(Y[i], j)}
            n == Cardinality(ws)
            P(a, b) == CSum([j \in ws |-> CMul(F(a, j, c), Conj(F(b, j, c)))], ws)
            xx == P(X[i], X[i])
            yy == P(Y[i], Y[i])
            xy == P(X[i], Y[i])
        IN \A s \in 1..4 :
             LET v == CASE s = 1 -> xx[1] + yy[1] [] s = 2 -> xx[1] - yy[1] [] s = 3 -> 2*xy[1] [] s = 4 -> 2*xy[2]
             IN Same(<<E.psd[s][i][c], 0>>, <<v, 0>>, n, 1)

(* frequency domain inputs: par.freqs, ants with spec[c][t] *)
XF(i, c, t) == par.ants[i].spec[c][t]
Turn(i, k, c) == Root(4, par.freqs[c] * (par.ants[i].d[c] - par.ants[k].d[c]))
XSum(i, k, c) == CMul(CSum([t \in 1..par.T |-> CMul(XF(i, c, t), Conj(XF(k, c, t)))], 1..par.T), Turn(i, k, c))
XSame(x, v, g) == Abs(x[1] - (v[1]*10000) \div (par.T * g)) <= 40 /\ Abs(x[2] - (v[2]*10000) \div (par.T * g)) <= 40
XOk == LET bs == Baselines(par.auto) IN
    /\ Len(E.vis) = Len(bs)
    /\ \A b \in 1..Len(bs), c \in Chans : XSame(E.vis[b][c], XSum(bs[b][1], bs[b][2], c), Gain(bs[b][1], bs[b][2]))
XStokesOk ==
    LET ps == Pairs(par.auto)
        X == Ins(0)
        Y == Ins(1)
    IN /\ Len(E.vis) = 4
       /\ \A s \in 1..4, b \in 1..Len(ps), c \in Chans :
            LET a == ps[b][1]
                d == ps[b][2]
                xx == XSum(X[a], X[d], c)
                yy == XSum(Y[a], Y[d], c)
                xy == XSum(X[a], Y[d], c)
                v == CASE s = 1 -> CAdd(xx, yy) [] s = 2 -> CSub(xx, yy) [] s = 3 -> <<2*xy[1], 0>> [] s = 4 -> <<2*xy[2], 0>>
            IN Len(E.vis[s]) = Len(ps) /\ XSame(E.vis[s][b][c], v, Gain(X[a], Y[d]))

(* baseline numbers *)
NumOk ==
    LET bs == Baselines(par.auto) IN
    /\ E.list = Ids(bs)
    /\ E.to = Ids(bs)                                                   \* number -> antennas
    /\ E.from = [b \in 1..Len(bs) |-> b - 1]                            \* antennas -> number
    /\ E.back = [b \in 1..Len(bs) |-> b - 1]                            \* in either order
    /\ E.none = -1
(* uvw of a baseline: east, north, up turned by latitude, hour angle and declination, all quarter turns *)
Cq(a) == Root(4, a)[1]
Sq(a) == Root(4, a)[2]
Uvw(a, b) ==
    LET e == a[1] - b[1]
        n == a[2] - b[2]
        u == a[3] - b[3]
        x == -Sq(E.lat)*n + Cq(E.lat)*u                                 \* celestial equator at the meridian
        y == e
        z == Cq(E.lat)*n + Sq(E.lat)*u                                  \* pole
    IN << Sq(E.ha)*x + Cq(E.ha)*y,
          -Sq(E.dec)*Cq(E.ha)*x + Sq(E.dec)*Sq(E.ha)*y + Cq(E.dec)*z,
          Cq(E.dec)*Cq(E.ha)*x - Cq(E.dec)*Sq(E.ha)*y + Sq(E.dec)*z >>
UvwOk ==
    LET bs == Baselines(par.auto) IN
    /\ Len(E.uvw) = Len(bs)
    /\ \A b \in 1..Len(bs) : E.uvw[b] = [f \in 1..Len(E.fr) |->
            LET v == Uvw(par.ants[bs[b][1]].xyz, par.ants[bs[b][2]].xyz) IN <<v[1]*E.fr[f], v[2]*E.fr[f], v[3]*E.fr[f]>>]

Clauses ==
    CASE E.op = "raise" -> {"correlation-raises"}
      [] E.op \in {"fx", "fxstokes"} ->
            {c \in {"baselines", "frequencies", "visibilities", "input-changed"} :
                CASE c = "input-changed" -> ~E.kept [] c = "baselines" -> E.bl # Ids(Baselines(par.auto))
                  [] c = "frequencies" -> ~FreqOk
                  [] c = "visibilities" -> IF E.op = "fx" THEN ~FxOk ELSE ~FxStokesOk}
      [] E.op = "spec" -> {c \in {"frequencies", "spectra", "input-changed"} : CASE c = "input-changed" -> ~E.kept [] c = "frequencies" -> ~FreqOk [] c = "spectra" -> ~SpecOk}
      [] E.op = "pstokes" -> {c \in {"frequencies", "spectra", "input-changed"} : CASE c = "input-changed" -> ~E.kept [] c = "frequencies" -> ~FreqOk [] c = "spectra" -> ~PStokesOk}
      [] E.op \in {"x", "xstokes"} ->
            {c \in {"baselines", "visibilities", "input-changed"} :
                CASE c = "input-changed" -> ~E.kept [] c = "baselines" -> E.bl # Ids(Baselines(par.auto))
                  [] c = "visibilities" -> IF E.op = "x" THEN ~XOk ELSE ~XStokesOk}
      [] E.op = "number" -> {c \in {"baseline-numbers"} : ~NumOk}
      [] E.op = "uvw" -> {c \in {"uvw"} : ~UvwOk}
Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)
Init == InitWith(<< >>) /\ l = 1 /\ dead = FALSE
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ UNCHANGED <<todo, acc, nact>>
    /\ IF E.op = "begin"
       THEN par' = E.par /\ dead' = FALSE
       ELSE /\ UNCHANGED par
            /\ IF dead THEN UNCHANGED dead
               ELSE LET cs == Clauses IN
                    IF cs = {} THEN UNCHANGED dead ELSE Report(cs) /\ dead' = TRUE
Spec == Init /\ [][Next]_allvars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
