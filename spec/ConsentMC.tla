----------------------------- MODULE ConsentMC -----------------------------
EXTENDS Consent, Randomization, Json, IOUtils, CSV
CONSTANTS MaxOps, Emit, Calls, Whole
VARIABLES cfg, on, pend, wr, logs, got, off, snd, made, hist, ops
vars == <<cfg, on, pend, wr, logs, got, off, snd, made, hist, ops>>
One(X) == IF Emit THEN RandomSubset(1, X) ELSE X
Rare(n) == RandomElement(1..n) = 1
----------------------------------------------------------------------------
(* The small machine: two sessions and a sender at the same time.  A call has a number.  A log is a set of calls, that is there  *)
(* as a whole or (Whole = FALSE) first with nothing in it.  off: the calls that a user had dropped, or that died with a session. *)
S2 == {1, 2}
Log(id, cs, full) == [id |-> id, cs |-> cs, full |-> full]
SStart(s) == on[s] = "no" /\ on' = [on EXCEPT ![s] = IF cfg THEN "on" ELSE "off"] /\ UNCHANGED <<cfg, pend, wr, logs, got, off, snd, made>>
SCall(s) == on[s] \in {"on", "off"} /\ made < Calls /\ made' = made + 1
            /\ (IF on[s] = "on" THEN pend' = [pend EXCEPT ![s] = @ \cup {made + 1}] /\ UNCHANGED off ELSE off' = off \cup {made + 1} /\ UNCHANGED pend)
            /\ UNCHANGED <<cfg, on, wr, logs, got, snd>>
STurn(s) == on[s] \in {"on", "off"} /\ UNCHANGED <<wr, logs, got, snd, made>>
            /\ \/ on' = [on EXCEPT ![s] = "off"] /\ off' = off \cup pend[s] /\ pend' = [pend EXCEPT ![s] = {}] /\ cfg' \in {cfg, FALSE}
               \/ on' = [on EXCEPT ![s] = "on"] /\ cfg' = TRUE /\ UNCHANGED <<off, pend>>
(* to write: the log appears (empty, or not yet), then it holds the calls *)
SOpen(s) == on[s] = "on" /\ pend[s] # {} /\ on' = [on EXCEPT ![s] = "writing"] /\ wr' = [wr EXCEPT ![s] = @ + 1]
            /\ logs' = (IF Whole THEN logs ELSE logs \cup {Log(<<s, wr[s]>>, {}, FALSE)}) /\ UNCHANGED <<cfg, pend, got, off, snd, made>>
SFill(s) == on[s] = "writing" /\ pend' = [pend EXCEPT ![s] = {}] /\ on' = [on EXCEPT ![s] = "on"]
            /\ (LET id == <<s, wr[s] - 1>> IN
               logs' = IF Whole \/ \E g \in logs : g.id = id THEN {g \in logs : g.id # id} \cup {Log(id, pend[s], TRUE)} ELSE logs)      \* (written to a file that is gone)
            /\ UNCHANGED <<cfg, wr, got, off, snd, made>>
SEnd(s) == on[s] \in {"on", "off"} /\ (on[s] = "on" => pend[s] = {}) /\ on' = [on EXCEPT ![s] = "no"] /\ UNCHANGED <<cfg, pend, wr, logs, got, off, snd, made>>
SKill(s) == on[s] # "no" /\ on' = [on EXCEPT ![s] = "no"] /\ off' = off \cup pend[s] /\ pend' = [pend EXCEPT ![s] = {}] /\ UNCHANGED <<cfg, wr, logs, got, snd, made>>
(* the sender: takes the logs there are, sends what it can read, and removes the logs it took once the server has said so *)
SList == snd.at = "idle" /\ logs # {} /\ cfg /\ snd' = [at |-> "listed", took |-> logs] /\ UNCHANGED <<cfg, on, pend, wr, logs, got, off, made>>
SSend == snd.at = "listed" /\ UNCHANGED <<cfg, on, pend, wr, logs, off, made>>
         /\ \/ got' = got \cup UNION {g.cs : g \in snd.took} /\ snd' = [snd EXCEPT !.at = "sent"]
            \/ got' = got \cup UNION {g.cs : g \in snd.took} /\ snd' = [at |-> "idle", took |-> {}]
            \/ got' = got /\ snd' = [at |-> "idle", took |-> {}]
SSweep == snd.at = "sent" /\ UNCHANGED <<cfg, on, pend, wr, got, off, made>>
          /\ IF snd.took = {} THEN snd' = [at |-> "idle", took |-> {}] /\ UNCHANGED logs
             ELSE \E g \in snd.took : logs' = {x \in logs : x.id # g.id} /\ snd' \in {[snd EXCEPT !.took = @ \ {g}], [at |-> "idle", took |-> {}]}
Small == (\E s \in S2 : SStart(s) \/ SCall(s) \/ STurn(s) \/ SOpen(s) \/ SFill(s) \/ SEnd(s) \/ SKill(s)) \/ SList \/ SSend \/ SSweep
(* no call is lost: it waits, is written down, has gone out, or was dropped because of the user *)
Conserved == ~Emit => 1..made = off \cup got \cup UNION {pend[s] : s \in S2} \cup UNION {g.cs : g \in logs}
(* what the user has turned off stays off *)
Private == ~Emit => off \cap (got \cup UNION {g.cs : g \in logs}) = {} 
----------------------------------------------------------------------------
H(e) == hist' = Append(hist, e)
S(o) == RandomElement({1, 1, 2, 3})
Rest == UNCHANGED <<cfg, on, pend, wr, logs, got, off, snd, made>>
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ IF ~Emit THEN Small /\ UNCHANGED hist
           ELSE /\ Rest
                /\ \E s \in {S(ops)} :
                   \/ H([op |-> "start", s |-> s])
                   \/ \E k \in One(Kinds), n \in One({1, 1, 2, 5}), t \in One({1, 1, 1, 4}) : H([op |-> "call", s |-> s, k |-> k, n |-> n, t |-> t])
                   \/ \E ks \in One({<<"fn", "meth", "cls", "script">>, <<"fn", "fnt", "metht">>, <<"module", "cls", "fn", "meth", "fnt", "metht", "script">>}), n \in One({1, 3}) : H([op |-> "calls", s |-> s, ks |-> ks, n |-> n])
                   \/ \E q \in One({"ignore", "disable", "enable", "enable"}) : Rare(2) /\ H([op |-> q, s |-> s])
                   \/ \E m \in One({"none", "none", "send", "kill"}), f \in One({"ok", "ok", "error"}) : H([op |-> "exit", s |-> s, mid |-> m, f |-> f])
                   \/ Rare(3) /\ H([op |-> "kill", s |-> s])
                   \/ Rare(3) /\ H([op |-> "full", s |-> s])
                   \/ \E f \in One(Answers \cup {"ok"}), m \in One({0, 0, s}), a \in One({TRUE, TRUE, FALSE}) : H([op |-> "send", f |-> f, mid |-> m, aged |-> a])
                   \/ Rare(3) /\ H([op |-> "junk"])
                   \/ Rare(2) /\ \E a \in One({"", "-e", "-d", "-k"}) : H([op |-> "cli", a |-> a])
Init == cfg = TRUE /\ on = [s \in S2 |-> "no"] /\ pend = [s \in S2 |-> {}] /\ wr = [s \in S2 |-> 0] /\ logs = {} /\ got = {} /\ off = {} /\ snd = [at |-> "idle", took |-> {}] /\ made = 0
        /\ hist = << >> /\ ops = 0
Spec == Init /\ [][Next]_vars
ASSUME /\ Leaves(Closed, {TRUE}, 3) = {TRUE} /\ Leaves(Disabled(Opened(TRUE, 3)), {TRUE}, 3) = {FALSE} /\ Leaves(Disabled(Opened(TRUE, 2)), {TRUE}, 3) = {TRUE, FALSE}
       /\ Leaves(Enabled(Disabled(Opened(TRUE, 3))), {TRUE}, 3) = {TRUE} /\ ~Ignored(Opened(TRUE, 1)).on /\ Leaves(Ignored(Opened(TRUE, 1)), {TRUE}, 1) = {TRUE}
       /\ \A k \in Kinds : ~Counts(Disabled(Opened(TRUE, 0)), k) /\ ~Counts(Opened(FALSE, 0), k)
EmitDone == ops = MaxOps => CSVWrite("%1$s", <<ToJson([ops |-> hist, max |-> RandomElement({2, 3, 5, 100}), cfg |-> RandomElement({TRUE, TRUE, FALSE})])>>, IOEnv.GEN_OUT)
=============================================================================
