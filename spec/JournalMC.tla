------------------------------ MODULE JournalMC ------------------------------
EXTENDS Journal, Randomization, Json, IOUtils, CSV, TLC
CONSTANTS MaxOps, Emit
VARIABLES s, hist, ops
vars == <<s, hist, ops>>
Levels == IF Emit THEN {0, 10, 20, 25, 30, 40, 50} ELSE {20, 30}
All == [op: {"level"}, level: Levels] \cup [op: {"log"}, level: Levels \ {0}] \cup {[op |-> "note"], [op |-> "warn"], [op |-> "noconsole"], [op |-> "nofile"], [op |-> "clear"]}
       \cup [op: {"console"}, to: IF Emit THEN Streams ELSE {"A"}, level: {0, 30}, bad: BOOLEAN] \cup [op: {"file"}, to: Files, level: IF Emit THEN {0, 25, 40} ELSE {0}, mode: {"a", "w"}, bad: {"", "path"}]
       \cup [op: {"add"}, h: IF Emit THEN Queues ELSE {"h1"}, level: {0, 30}] \cup [op: {"remove"}, h: IF Emit THEN Queues ELSE {"h1"}] \cup [op: {"filter", "unfilter"}, p: IF Emit THEN Patterns ELSE {"lsl*", "py.*"}] \cup [op: {"capture"}, on: BOOLEAN]
Act == ~Emit /\ ops < MaxOps /\ ops' = ops + 1 /\ (\E o \in All : s' = Step(s, o, ops + 1) /\ hist' = <<o>>)
(* ---- histories for the code: messages more often than the rest ---- *)
R(a, b) == RandomElement(a..b)
Say(o) == RandomElement({[op |-> "log", level |-> RandomElement({10, 20, 25, 30, 40, 50})], [op |-> "log", level |-> RandomElement({10, 20, 25, 30, 40, 50})], [op |-> "note"], [op |-> "warn"], [op |-> "warn"]})
Burst(o) == [op |-> "burst", threads |-> R(2, 4), n |-> R(5, 20), level |-> RandomElement({20, 30, 50})]
Pick(o) == RandomElement({[op |-> "level", level |-> RandomElement(Levels)], [op |-> "noconsole"], [op |-> "nofile"], [op |-> "clear"], [op |-> "clear"],
                          [op |-> "console", to |-> RandomElement(Streams), level |-> RandomElement({0, 0, 25, 40}), bad |-> R(1, 6) = 1],
                          [op |-> "file", to |-> RandomElement(Files), level |-> RandomElement({0, 0, 25, 40}), mode |-> RandomElement({"a", "a", "w"}), bad |-> RandomElement({"", "", "", "path", "level"})],
                          [op |-> "file", to |-> RandomElement(Files), level |-> 0, mode |-> "a", bad |-> ""],
                          [op |-> "add", h |-> RandomElement(Queues), level |-> RandomElement({0, 0, 25, 40})], [op |-> "remove", h |-> RandomElement(Queues)],
                          [op |-> "filter", p |-> RandomElement(Patterns)], [op |-> "unfilter", p |-> RandomElement(Patterns \ {"LSL*"})], [op |-> "capture", on |-> TRUE], [op |-> "capture", on |-> R(1, 2) = 1]})
Gen == Emit /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED s /\ (\E o \in {CASE R(1, 2) = 1 -> Say(ops) [] R(1, 12) = 1 -> Burst(ops) [] OTHER -> Pick(ops)} : hist' = Append(hist, o))
Init == s = New /\ hist = << >> /\ ops = 0
Next == Act \/ Gen
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Ids(x) == {s.sinks[x][i][2] : i \in 1..Len(s.sinks[x])} \ {0}
(* in order, and none twice, however often a place has been asked for *)
Ordered == \A x \in Sinks : \A i, j \in 1..Len(s.sinks[x]) : (i < j /\ s.sinks[x][j][2] # 0 /\ s.sinks[x][i][2] # 0) => s.sinks[x][i][2] < s.sinks[x][j][2] \/ (x = "q" /\ s.sinks[x][i] = s.sinks[x][j])
(* the places that take everything have all that any other has *)
Covered == \A x \in Sinks : Ids(x) \subseteq Ids("err")
(* only messages are written, only a new file is emptied, and only places that are on are written to *)
Grows == [][hist' # hist => LET o == hist'[1] IN \A x \in Sinks :
              /\ (Len(s'.sinks[x]) > Len(s.sinks[x]) => o.op \in {"log", "note", "warn", "file"} /\ Times(s, x, 50) > 0)
              /\ (Len(s'.sinks[x]) < Len(s.sinks[x]) => o.op = "file" /\ o.mode = "w" /\ x = o.to)]_vars
EmitDone == (Emit /\ ops = MaxOps) => CSVWrite("%1$s", <<ToJson([ops |-> hist])>>, IOEnv.GEN_OUT)
=============================================================================
