------------------------------- MODULE Journal -------------------------------
(* The log: messages go to every place that has been asked for and lets their level through, once and in order, if the logger's level and all filters let them through. *)
EXTENDS Integers, Sequences, FiniteSets
Streams == {"A", "B"}
Files == {"f1", "f2"}
Queues == {"h1", "h2"}
Sinks == {"err"} \cup Streams \cup Files \cup {"q"}
Patterns == {"lsl_logger", "lsl*", "py.*", "*", "l?l_logger", "lsl.sim.*", "LSL*", "p?.warnings"}
Matches(name, p) == CASE name = "lsl_logger" -> p \in {"lsl_logger", "lsl*", "*", "l?l_logger"} [] name = "py.warnings" -> p \in {"py.*", "*", "p?.warnings"}
None == -1
New == [level |-> 20, con |-> [on |-> FALSE, to |-> "", level |-> 0], file |-> [on |-> FALSE, to |-> "", level |-> 0], hs |-> [h \in Queues |-> None], filters |-> {}, cap |-> FALSE, sinks |-> [x \in Sinks |-> << >>]]
(* no level of its own: that of the root logger, which is that of warnings *)
Eff(s) == IF s.level = 0 THEN 30 ELSE s.level
Through(s, name, lvl) == lvl >= Eff(s) /\ \A p \in s.filters : Matches(name, p)
(* how many times a message of that level is put in a sink *)
Times(s, x, lvl) == CASE x = "err" -> 1
                      [] x \in Streams -> IF s.con.on /\ s.con.to = x /\ lvl >= s.con.level THEN 1 ELSE 0
                      [] x \in Files -> IF s.file.on /\ s.file.to = x /\ lvl >= s.file.level THEN 1 ELSE 0
                      [] x = "q" -> Cardinality({h \in Queues : s.hs[h] # None /\ lvl >= s.hs[h]})
Copies(m, n) == [i \in 1..n |-> m]
Put(s, name, lvl, id) == IF ~Through(s, name, lvl) THEN s ELSE [s EXCEPT !.sinks = [x \in Sinks |-> s.sinks[x] \o Copies(<<lvl, id>>, Times(s, x, lvl))]]
Warned(s, id) == IF s.cap THEN Put(s, "py.warnings", 30, id) ELSE s
(* what an operation makes of the state; id is the number of the operation *)
Step(s, o, id) == CASE o.op = "level" -> [s EXCEPT !.level = o.level]
    [] o.op \in {"log", "note"} -> Put(s, "lsl_logger", IF o.op = "note" THEN 25 ELSE o.level, id)
    [] o.op = "warn" -> Warned(s, id)
    [] o.op = "console" -> IF o.bad THEN s ELSE [s EXCEPT !.con = [on |-> TRUE, to |-> o.to, level |-> o.level]]
    [] o.op = "noconsole" -> [s EXCEPT !.con.on = FALSE]
    (* the change of files is announced, and the old one gets to know of it; a file that cannot be had changes nothing *)
    [] o.op = "file" -> LET w == IF s.file.on THEN Warned(s, 0) ELSE s IN
                        IF o.bad # "" THEN w
                        ELSE [w EXCEPT !.file = [on |-> TRUE, to |-> o.to, level |-> o.level], !.sinks[o.to] = IF o.mode = "w" THEN << >> ELSE @]
    [] o.op = "nofile" -> [s EXCEPT !.file.on = FALSE]
    [] o.op = "add" -> [s EXCEPT !.hs[o.h] = o.level]
    [] o.op = "remove" -> [s EXCEPT !.hs[o.h] = None]
    [] o.op = "filter" -> [s EXCEPT !.filters = @ \cup {o.p}]
    [] o.op = "unfilter" -> [s EXCEPT !.filters = @ \ {o.p}]
    [] o.op = "clear" -> [s EXCEPT !.filters = {}]
    [] o.op = "capture" -> [s EXCEPT !.cap = o.on]
    [] OTHER -> s
=============================================================================
