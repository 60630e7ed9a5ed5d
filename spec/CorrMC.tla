------------------------------ MODULE CorrMC ------------------------------
EXTENDS Corr, TLC, Json, IOUtils, CSV
CONSTANTS Vals, T
(* two inputs; the second one is the first one delayed by 0..2 samples when twin is set *)
VARIABLE twin
allvars == <<vars, twin>>
Sigs(real) == [1..T -> {<<v, 0>> : v \in Vals} \cup IF real THEN {} ELSE {<<0, 1>>}]
Delays(L) == {[c \in 1..L |-> d] : d \in 0..2}
Configs == {[real |-> r, L |-> n, ov |-> o, clip |-> cl, fc |-> f] :
              r \in BOOLEAN, n \in {1, 2, 4}, o \in {1, 2}, cl \in {0, 1}, f \in {0, 1}}
Fits(c) == (c.real => c.L <= 2 /\ c.fc = 0) /\ c.ov <= c.L
Init ==
    \E c \in {x \in Configs : Fits(x)} :
    \E s1 \in Sigs(c.real), v \in 1..2, d \in Delays(c.L), tw \in BOOLEAN :
        LET n == IF c.real THEN 2*c.L ELSE c.L
            \* when twin: input 2 is input 1, late by d
            sh == d[1]
            s2 == IF v = 1 THEN [t \in 1..T |-> s1[T + 1 - t]]
                  ELSE [t \in 1..T |-> IF c.real THEN s1[(t % T) + 1] ELSE <<s1[t][2], s1[(t % T) + 1][1]>>]
            sig2 == IF tw THEN [t \in 1..T |-> IF t - sh >= 1 THEN s1[t - sh] ELSE <<0, 0>>] ELSE s2
        IN /\ tw => v = 1
           /\ twin = tw
           /\ InitWith([real |-> c.real, L |-> c.L, ov |-> c.ov, clip |-> c.clip, fc |-> c.fc, p1 |-> 0, p2 |-> 0,
                        win |-> [k \in 1..n |-> 1],
                        ants |-> << [stand |-> 1, pol |-> 0, d |-> [k \in 1..c.L |-> 0], sig |-> s1],
                                    [stand |-> 2, pol |-> 0, d |-> d, sig |-> sig2] >>])
Next == /\ UNCHANGED twin
        /\ \/ acc = << >> /\ Begin
           \/ \E j \in todo : Integrate(j)
Spec == Init /\ [][Next]_allvars
(* A signal that arrives late and is known to arrive late correlates as if it were on time; what remains
   of a delay at the central frequency is the phase that the wave has there *)
OnTime == (Done /\ twin) => \A c \in Chans :
    Vis(1, 2, c) = CMul(Vis(1, 1, c), IF par.real THEN <<1, 0>> ELSE Root(N, -(par.fc * par.ants[2].d[1])))
EmitPar == acc = << >> => CSVWrite("%1$s", <<ToJson(par)>>, IOEnv.GEN_OUT)
OnlyInit == acc = << >>
=============================================================================
