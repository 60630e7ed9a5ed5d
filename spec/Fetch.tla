-------------------------------- MODULE Fetch -------------------------------
(* Data files: a name is looked up in the copy that came with the software,   *)
(* on the first server and on the second, and what is found is kept.  What is *)
(* kept is looked after when it is old.  Versions are numbers, 0 is no file;  *)
(* the clock goes by one with every event.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Names == {"a.txt", "d/b.npz", "c-ssmif.txt"}
Servers == {"A", "B"}
Old == 14                                      \* a kept file this old is looked after
Nothing == [ver |-> 0, at |-> 0, size |-> 0]
File(v, t, n) == [ver |-> v, at |-> t, size |-> n]
(* What may be wrong with a server: it is not there, it does not answer, it answers with an error, it hangs up in the body, *)
(* it tells no length, no date, a date that is none, or packs the body (which is no fault). *)
Faults == {"none", "gzip", "down", "reset", "error", "short", "shortgzip", "nolen", "nodate", "baddate"}
(* a file of less than three bytes is taken for none *)
Real(f) == f.ver # 0 /\ f.size >= 3
(* how a GET comes out: "yes", "no", or either way *)
Get(fault, f) == IF f.ver = 0 \/ (~Real(f) /\ fault # "gzip") \/ fault \in {"down", "reset", "error"} THEN "no"
                 ELSE IF fault \in {"short", "shortgzip"} THEN "no"
                 ELSE IF fault \in {"nolen", "baddate"} \/ ~Real(f) THEN "may"
                 ELSE "yes"
(* the date that a HEAD tells, 0 if none *)
Tells(fault, f) == IF f.ver = 0 \/ fault \in {"down", "reset", "error", "nolen", "nodate", "baddate"} THEN 0 ELSE f.at
(* the versions that may come of trying sources <<answer, file>> in turn; 0 if none works out *)
RECURSIVE Walk(_)
Walk(srcs) == IF srcs = << >> THEN {0}
              ELSE LET s == srcs[1] IN CASE s[1] = "yes" -> {s[2].ver}
                                         [] s[1] = "may" -> {s[2].ver} \cup Walk(Tail(srcs))
                                         [] OTHER -> Walk(Tail(srcs))
(* ---- the world: loc and srv[s] are functions from names to files, bad[s] the fault of a server ---- *)
Local(loc, n) == <<IF Real(loc[n]) THEN "yes" ELSE "no", loc[n]>>
Remote(srv, bad, s, n) == <<Get(bad[s], srv[s][n]), srv[s][n]>>
(* the first time *)
FirstTime(loc, srv, bad, n) == Walk(<<Local(loc, n), Remote(srv, bad, "A", n), Remote(srv, bad, "B", n)>>)
(* when it is old: what is newer replaces it if it can be had *)
Date(srv, bad, n) == LET a == Tells(bad["A"], srv["A"][n]) IN IF a # 0 THEN a ELSE Tells(bad["B"], srv["B"][n])
Refresh(loc, srv, bad, n, kept) ==
    LET l == loc[n].at r == Date(srv, bad, n)
        keep(S) == {IF v = 0 THEN kept.ver ELSE v : v \in S}
        far == keep(Walk(<<Remote(srv, bad, "A", n), Remote(srv, bad, "B", n)>>))
        near == keep(Walk(<<Local(loc, n)>>)) IN
    IF l <= kept.at /\ r <= kept.at THEN {kept.ver}
    ELSE IF r > l THEN far ELSE IF r < l THEN near ELSE far \cup near
(* the versions that a fetch may leave in place; 0: it fails and nothing is there *)
Fetched(loc, srv, bad, n, kept, now) == IF kept.ver = 0 THEN FirstTime(loc, srv, bad, n)
                                        ELSE IF now - kept.at < Old THEN {kept.ver}
                                        ELSE Refresh(loc, srv, bad, n, kept)
=============================================================================
