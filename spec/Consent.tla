------------------------------ MODULE Consent ------------------------------
(* Telemetry: what is called is counted while the user lets it, counts are    *)
(* written down when a session ends, and what is written down goes out once   *)
(* it is old.  For every kind of call there is the least (lo) and the most    *)
(* (hi) that the logs and the server together may hold.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Timed == {"fnt", "metht"}
Counted == {"fn", "meth", "cls", "script", "module"} \cup Timed
(* calls of subclasses, calls that fail and calls of other software do not count *)
Uncounted == {"sub", "raise", "foreign"}
Kinds == Counted \cup Uncounted
Slots == {1, 2, 3}
Zero == [k \in Counted |-> 0]
Plus(f, g) == [k \in Counted |-> f[k] + g[k]]
(* ---- a session: whether it counts, what it has for the setting, what it had when it started, and what it has counted ---- *)
Closed == [open |-> FALSE, on |-> FALSE, set |-> TRUE, base |-> TRUE, seen |-> 0, touched |-> FALSE, pend |-> Zero]
Opened(cfg, stamp) == [open |-> TRUE, on |-> cfg, set |-> cfg, base |-> cfg, seen |-> stamp, touched |-> FALSE, pend |-> Zero]
Counts(s, k) == s.on /\ k \in Counted
Called(s, k, n) == IF Counts(s, k) THEN [s EXCEPT !.pend[k] = @ + n] ELSE s
(* what was counted before it is turned off may go either way *)
Ignored(s) == [s EXCEPT !.on = FALSE, !.pend = Zero]
Disabled(s) == [s EXCEPT !.on = FALSE, !.set = FALSE, !.touched = TRUE, !.pend = Zero]
Enabled(s) == [s EXCEPT !.on = TRUE, !.set = TRUE, !.touched = TRUE]
(* the setting that a session leaves behind: the ones that it may be *)
Leaves(s, cfg, stamp) == IF ~s.touched THEN cfg
                         ELSE IF s.seen = stamp THEN (IF s.set = s.base THEN cfg ELSE {s.set})
                         ELSE cfg \cup {s.set}
Dies(s, cfg) == IF s.touched THEN cfg \cup {s.set} ELSE cfg
(* ---- the server ---- *)
Answers == {"ok", "refuse", "error", "ackloss", "locked"}
=============================================================================
