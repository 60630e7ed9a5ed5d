----------------------------- MODULE Timestamp -----------------------------
(***************************************************************************)
(* Instants as lsl.reader.base.FrameTimestamp keeps them: exact to the     *)
(* tick of the 196 MHz clock.  An instant is a triple (day since 1970,     *)
(* second of the day, tick of the second); every other form a time stamp   *)
(* can be read in or made from names the same triple.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS FS,        \* ticks a second
          DAY        \* seconds a day (86400 in the real system; small when the model is checked)
VARIABLES now,       \* the current instant <<d, s, k>>
          ref        \* another instant, to compare with
vars == <<now, ref>>

Norm(d, s, k) == LET s1 == s + (k \div FS) d1 == d + (s1 \div DAY)
                 IN <<d1, s1 % DAY, k % FS>>
Wellformed(t) == t[2] \in 0..DAY-1 /\ t[3] \in 0..FS-1
Before(a, b) == \/ a[1] < b[1]
                \/ a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3]))
Plus(t, s, k) == Norm(t[1], t[2] + s, t[3] + k)
(* a - b as <<days, seconds, ticks>> with seconds and ticks in range *)
Minus(a, b) == Norm(a[1] - b[1], a[2] - b[2], a[3] - b[3])
(* the first instant of the millisecond m of day d *)
OfMpm(d, m) == Norm(d, m \div 1000, (m % 1000) * (FS \div 1000))
OfMpmGen(d, m, PerS) == Norm(d, m \div PerS, (m % PerS) * (FS \div PerS))

Set(d, s, k) == now' = Norm(d, s, k) /\ UNCHANGED ref
Shift(s, k) == now' = Plus(now, s, k) /\ UNCHANGED ref
Mark == ref' = now /\ UNCHANGED now
----------------------------------------------------------------------------
TypeOK == Wellformed(now) /\ Wellformed(ref)
Trichotomy == (IF Before(now, ref) THEN 1 ELSE 0) + (IF Before(ref, now) THEN 1 ELSE 0) + (IF now = ref THEN 1 ELSE 0) = 1
(* the difference is what has to be added to get there *)
Inverse == LET m == Minus(now, ref) IN Norm(ref[1] + m[1], ref[2] + m[2], ref[3] + m[3]) = now
Signs == Before(now, ref) <=> Minus(now, ref)[1] < 0
=============================================================================
