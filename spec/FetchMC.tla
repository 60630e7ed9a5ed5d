------------------------------ MODULE FetchMC ------------------------------
EXTENDS Fetch, Randomization, Json, IOUtils, CSV
CONSTANTS MaxOps, Emit, Alone
VARIABLES loc, srv, bad, ver, data, meta, part, pc, tmp, open, hist, ops
vars == <<loc, srv, bad, ver, data, meta, part, pc, tmp, open, hist, ops>>
One(X) == IF Emit THEN RandomSubset(1, X) ELSE X
Rare(n) == RandomElement(1..n) = 1
----------------------------------------------------------------------------
(* The small machine: two clients fetch, refresh and open one file of one server, that may hang up half way; *)
(* either may be killed at any step; the file in place and its metadata are two things.                      *)
(* data: <<version, whole>>; part[c]: likewise; meta: whether there is metadata; pc[c]: what client c is at.  *)
Clients == {1, 2}
Put(n, f) == [n EXCEPT !["a.txt"] = f]
SmallEdit == ver < 3 /\ ver' = ver + 1 /\ UNCHANGED <<data, meta, part, pc, tmp, open>>
Look(c) == pc[c] = "idle" /\ UNCHANGED <<ver, data, meta, part, tmp, open>>
           /\ \/ (data[1] = 0 \/ ~meta) /\ ver > 0 /\ pc' = [pc EXCEPT ![c] = "get"]
              \/ data[1] # 0 /\ meta /\ pc' = [pc EXCEPT ![c] = "have"]
              \/ data[1] # 0 /\ meta /\ ver > data[1] /\ pc' = [pc EXCEPT ![c] = "get"]
GetPart(c) == pc[c] = "get" /\ \E w \in BOOLEAN : part' = [part EXCEPT ![c] = <<ver, w>>] /\ tmp' = [tmp EXCEPT ![c] = w] /\ pc' = [pc EXCEPT ![c] = "check"] /\ UNCHANGED <<ver, data, meta, open>>
Check(c) == pc[c] = "check" /\ UNCHANGED <<ver, data, part, tmp, open>> /\ IF tmp[c] THEN meta' = FALSE /\ pc' = [pc EXCEPT ![c] = "place"] ELSE meta' = meta /\ pc' = [pc EXCEPT ![c] = "idle"]
(* the copy into place holds the lock: a client that looks for the file waits; one that is killed leaves it in pieces *)
Place(c) == pc[c] = "place" /\ data' = part[c] /\ pc' = [pc EXCEPT ![c] = "meta"] /\ UNCHANGED <<ver, meta, part, tmp, open>>
PlaceKilled(c) == Alone /\ pc[c] = "place" /\ data' = <<part[c][1], FALSE>> /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<ver, meta, part, tmp, open>>
Meta(c) == pc[c] = "meta" /\ meta' = TRUE /\ pc' = [pc EXCEPT ![c] = "have"] /\ UNCHANGED <<ver, data, part, tmp, open>>
Kill(c) == pc[c] # "idle" /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<ver, data, meta, part, tmp, open>>
Open(c) == pc[c] = "have" /\ open' = data /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<ver, data, meta, part, tmp>>
(* One client that may be killed at any step, or two that are not killed while they copy into place. *)

Small == \E c \in (IF Alone THEN {1} ELSE Clients) : SmallEdit \/ Look(c) \/ GetPart(c) \/ Check(c) \/ Place(c) \/ PlaceKilled(c) \/ Meta(c) \/ Kill(c) \/ Open(c)
----------------------------------------------------------------------------
Sizes == {2, 3, 100, 8191, 8192, 8193, 20000, 50000}
H(e) == hist' = Append(hist, e)
Rest == UNCHANGED <<loc, srv, bad, data, meta, part, pc, tmp, open>>
EditLocal == \E n \in One(Names), k \in One(Sizes) : IF Rare(4) THEN H([op |-> "edit", w |-> "local", n |-> n, ver |-> 0, size |-> 0]) /\ UNCHANGED ver /\ Rest
                                                    ELSE H([op |-> "edit", w |-> "local", n |-> n, ver |-> ver + 1, size |-> k]) /\ ver' = ver + 1 /\ Rest
EditServer == \E n \in One(Names), s \in One({"A", "B", "AB"}), k \in One(Sizes) : IF Rare(8) THEN H([op |-> "edit", w |-> s, n |-> n, ver |-> 0, size |-> 0]) /\ UNCHANGED ver /\ Rest
                                                    ELSE H([op |-> "edit", w |-> s, n |-> n, ver |-> ver + 1, size |-> k]) /\ ver' = ver + 1 /\ Rest
Spoil == \E s \in One(Servers), f \in One(Faults), easy \in One({TRUE, FALSE}) : H([op |-> "fault", s |-> s, f |-> IF easy THEN "none" ELSE f]) /\ UNCHANGED ver /\ Rest
Wait == \E d \in One({1, 5, 13, 14, 15, 20}) : H([op |-> "wait", d |-> d]) /\ UNCHANGED ver /\ Rest
Ask == \E n \in One(Names), q \in One({"fetch", "open", "open", "text", "size"}) : H([op |-> q, n |-> n]) /\ UNCHANGED ver /\ Rest
Forget == \E n \in One(Names) : H([op |-> "remove", n |-> n]) /\ UNCHANGED ver /\ Rest
Session == Rare(3) /\ H([op |-> "session"]) /\ UNCHANGED ver /\ Rest
Killed == Rare(2) /\ \E n \in One(Names), at \in One({"head", "body", "end"}) : H([op |-> "kill", n |-> n, at |-> at]) /\ UNCHANGED ver /\ Rest
Direct == \E n \in One(Names), s \in One(Servers), to \in One({"name", "handle", "check", "text"}), r \in One({<< >>, <<0, 0>>, <<0, 99>>, <<5, 9000>>, <<100, 100>>}) :
            H([op |-> "direct", n |-> n, s |-> s, to |-> to, r |-> r]) /\ UNCHANGED ver /\ Rest
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ IF Emit THEN EditLocal \/ EditServer \/ EditServer \/ Spoil \/ Wait \/ Ask \/ (Ask /\ TRUE) \/ Forget \/ Session \/ Killed \/ Direct
           ELSE Small /\ UNCHANGED <<loc, srv, bad, hist>>
Init == loc = 0 /\ srv = 0 /\ bad = 0 /\ ver = 0 /\ data = <<0, TRUE>> /\ meta = FALSE /\ part = [c \in Clients |-> <<0, TRUE>>] /\ pc = [c \in Clients |-> "idle"] /\ tmp = [c \in Clients |-> FALSE] /\ open = <<0, TRUE>>
        /\ hist = << >> /\ ops = 0
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* Only whole files are ever opened, and a file with metadata is whole. *)
Whole == ~Emit => open[2]
Marked == ~Emit /\ meta => data[2]
(* The walk over the sources takes the first that works, and a refresh never goes back in time. *)
ASSUME LET f == File(1, 1, 9) g == File(2, 2, 9) IN
       /\ Walk(<<<<"no", f>>, <<"yes", g>>>>) = {2} /\ Walk(<<<<"may", f>>, <<"yes", g>>>>) = {1, 2} /\ Walk(<<<<"no", f>>>>) = {0}
World(x) == [n \in Names |-> x]
Near5 == {Nothing, File(1, 1, 9), File(2, 5, 9), File(3, 5, 2)}
ASSUME \A l, a, b \in Near5, fa, fb \in Faults, k \in {Nothing, File(4, 3, 9)} : \A now \in {6, 20} :
          LET r == Fetched(World(l), [A |-> World(a), B |-> World(b)], [A |-> fa, B |-> fb], "a.txt", k, now) IN
          /\ r # {} /\ (k.ver # 0 => 0 \notin r) /\ (k.ver # 0 /\ now = 6 => r = {4})
          /\ \A v \in r : v # 0 /\ v # 4 => (Real(l) /\ l.ver = v) \/ (a.ver = v /\ fa \notin {"down", "short"}) \/ (b.ver = v /\ fb \notin {"down", "short"})
          /\ (k.ver # 0 /\ l.at <= 3 /\ a.at <= 3 /\ b.at <= 3 => r = {4})
          /\ (k.ver # 0 /\ now = 20 /\ ~Real(l) /\ fa = "none" /\ a = File(2, 5, 9) => (r = {2} \/ l.at >= 5))
EmitDone == ops = MaxOps => CSVWrite("%1$s", <<ToJson([ops |-> hist])>>, IOEnv.GEN_OUT)
=============================================================================
