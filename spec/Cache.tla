------------------------------- MODULE Cache --------------------------------
(***************************************************************************)
(* lsl.misc.file_cache: FileCache and MemoryCache.  A set of named files,  *)
(* each a sequence of blocks, ordered by when they were last written.      *)
(* Opening a file for writing first makes room: the oldest of the other    *)
(* files go, one at a time, until the whole fits the limit or only one     *)
(* file is left.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
    has,      \* names of the files there are
    body,     \* body[n]: the blocks in file n, [t |-> token, n |-> size]
    ord,      \* ord[n]: when file n was last written
    clock,    \* time of the last write
    limit     \* the limit on the total size; 0: none
vars == <<has, body, ord, clock, limit>>

RECURSIVE Total(_)
Total(s) == IF s = << >> THEN 0 ELSE Head(s).n + Total(Tail(s))
RECURSIVE Used(_, _)
Used(S, b) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Total(b[x]) + Used(S \ {x}, b)
Oldest(S) == CHOOSE x \in S : \A y \in S : ord[x] <= ord[y]
RECURSIVE Keep(_, _, _)
(* what is left of the files S when file n, of which the blocks are b[n] by now, is being opened *)
Keep(S, b, n) == IF limit > 0 /\ Used(S, b) > limit /\ Cardinality(S) > 1
                 THEN Keep(S \ {Oldest(S \ {n})}, b, n)
                 ELSE S

Base(n, mode) == IF mode = "a" /\ n \in has THEN body[n] ELSE << >>
(* the files that there are while n is open for writing *)
During(n, mode) == Keep(has \cup {n}, [body EXCEPT ![n] = Base(n, mode)], n)
Write(n, mode, blocks) ==
    /\ has' = During(n, mode)
    /\ body' = [m \in DOMAIN body |-> IF m = n THEN Base(n, mode) \o blocks
                                      ELSE IF m \in has' THEN body[m] ELSE << >>]
    /\ clock' = clock + 1
    /\ ord' = [m \in DOMAIN ord |-> IF m = n THEN clock + 1 ELSE IF m \in has' THEN ord[m] ELSE 0]
    /\ UNCHANGED limit
Remove(n) ==
    /\ has' = has \ {n}
    /\ body' = [body EXCEPT ![n] = << >>]
    /\ ord' = [ord EXCEPT ![n] = 0]
    /\ UNCHANGED <<clock, limit>>
Reopen(lim) == limit' = lim /\ UNCHANGED <<has, body, ord, clock>>
----------------------------------------------------------------------------
(* the cache is over its limit only by what the last writer has written, or with a single file *)
Absent == \A n \in DOMAIN body : n \notin has => body[n] = << >> /\ ord[n] = 0
Distinct == \A m, n \in has : m # n => ord[m] # ord[n]
RoomMade == [][\A n \in DOMAIN body : (clock' > clock /\ ord'[n] = clock') =>
                  \/ limit = 0
                  \/ has' = {n}
                  \/ Used(has' \ {n}, body') <= limit]_vars
OldestFirst == [][clock' > clock =>
                  \A m \in has \ has', k \in has' \cap has : ord'[k] < clock' => ord[m] < ord[k]]_vars
OthersUntouched == [][\A n \in has' \cap has : ord'[n] = ord[n] => body'[n] = body[n]]_vars
NoNeedlessLoss == [][limit = 0 => \A n \in has \ has' : clock' = clock]_vars
=============================================================================
