------------------------------ MODULE LockImpl ------------------------------
(***************************************************************************)
(* How FileLock does it, step by step: a re-entrant lock for the threads   *)
(* that share the instance, then an exclusive advisory lock (flock) on     *)
(* the lock file, taken on a file description of its own.  Any thread may  *)
(* run between any two steps, and a process may die at any of them.  Every *)
(* behaviour of this is one of Lock (the refinement below).                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS MaxDepth, MaxCrash
Ag == 1..5
ProcOf == <<1, 1, 1, 2, 2>>
InstOf == <<1, 1, 2, 3, 3>>
Insts == 1..3
None == 0
VARIABLES
    pc,        \* idle, want, haveThread, haveFile, releasing
    rowner,    \* rowner[i]: the agent that has the thread lock of instance i
    rcount,    \* how many times
    locked,    \* locked[i]: instance i thinks it has the file
    flock,     \* the instance whose file description has the flock
    d,         \* d[a]: acquisitions that returned to a and were not released
    crashes
ivars == <<pc, rowner, rcount, locked, flock, d, crashes>>
Init == /\ pc = [a \in Ag |-> "idle"] /\ rowner = [i \in Insts |-> None] /\ rcount = [i \in Insts |-> 0]
        /\ locked = [i \in Insts |-> FALSE] /\ flock = None /\ d = [a \in Ag |-> 0] /\ crashes = 0
Want(a) == pc[a] = "idle" /\ d[a] < MaxDepth /\ pc' = [pc EXCEPT ![a] = "want"]
           /\ UNCHANGED <<rowner, rcount, locked, flock, d, crashes>>
TakeThread(a) == LET i == InstOf[a] IN
    /\ pc[a] = "want" /\ rowner[i] \in {None, a}
    /\ rowner' = [rowner EXCEPT ![i] = a] /\ rcount' = [rcount EXCEPT ![i] = @ + 1]
    /\ pc' = [pc EXCEPT ![a] = "haveThread"] /\ UNCHANGED <<locked, flock, d, crashes>>
GiveUpThread(a) == /\ pc[a] = "want" /\ rowner[InstOf[a]] \notin {None, a}
                   /\ pc' = [pc EXCEPT ![a] = "idle"] /\ UNCHANGED <<rowner, rcount, locked, flock, d, crashes>>
TakeFile(a) == LET i == InstOf[a] IN
    /\ pc[a] = "haveThread" /\ ~locked[i] /\ flock = None
    /\ flock' = i /\ pc' = [pc EXCEPT ![a] = "haveFile"] /\ UNCHANGED <<rowner, rcount, locked, d, crashes>>
Done(a) == LET i == InstOf[a] IN
    /\ (pc[a] = "haveFile" \/ (pc[a] = "haveThread" /\ locked[i]))
    /\ locked' = [locked EXCEPT ![i] = TRUE] /\ d' = [d EXCEPT ![a] = @ + 1]
    /\ pc' = [pc EXCEPT ![a] = "idle"] /\ UNCHANGED <<rowner, rcount, flock, crashes>>
GiveUpFile(a) == LET i == InstOf[a] IN
    /\ pc[a] = "haveThread" /\ ~locked[i] /\ flock # None
    /\ rcount' = [rcount EXCEPT ![i] = @ - 1] /\ rowner' = [rowner EXCEPT ![i] = IF rcount[i] = 1 THEN None ELSE @]
    /\ pc' = [pc EXCEPT ![a] = "idle"] /\ UNCHANGED <<locked, flock, d, crashes>>
(* release: the count first, then the file if it was the last, then the thread lock *)
Rel1(a) == /\ pc[a] = "idle" /\ d[a] > 0 /\ d' = [d EXCEPT ![a] = @ - 1]
           /\ pc' = [pc EXCEPT ![a] = IF d[a] = 1 THEN "unfile" ELSE "unthread"] /\ UNCHANGED <<rowner, rcount, locked, flock, crashes>>
Rel2(a) == LET i == InstOf[a] IN
           /\ pc[a] = "unfile" /\ flock' = None
           /\ pc' = [pc EXCEPT ![a] = "unflag"] /\ UNCHANGED <<rowner, rcount, locked, d, crashes>>
Rel3(a) == LET i == InstOf[a] IN
           /\ pc[a] = "unflag" /\ locked' = [locked EXCEPT ![i] = FALSE]
           /\ pc' = [pc EXCEPT ![a] = "unthread"] /\ UNCHANGED <<rowner, rcount, flock, d, crashes>>
Rel4(a) == LET i == InstOf[a] IN
           /\ pc[a] = "unthread" /\ rcount' = [rcount EXCEPT ![i] = @ - 1]
           /\ rowner' = [rowner EXCEPT ![i] = IF rcount[i] = 1 THEN None ELSE @]
           /\ pc' = [pc EXCEPT ![a] = "idle"] /\ UNCHANGED <<locked, flock, d, crashes>>
Kill(p) == LET is == {InstOf[a] : a \in {b \in Ag : ProcOf[b] = p}} IN
    /\ crashes < MaxCrash /\ crashes' = crashes + 1
    /\ pc' = [a \in Ag |-> IF ProcOf[a] = p THEN "idle" ELSE pc[a]]
    /\ d' = [a \in Ag |-> IF ProcOf[a] = p THEN 0 ELSE d[a]]
    /\ rowner' = [i \in Insts |-> IF i \in is THEN None ELSE rowner[i]]
    /\ rcount' = [i \in Insts |-> IF i \in is THEN 0 ELSE rcount[i]]
    /\ locked' = [i \in Insts |-> IF i \in is THEN FALSE ELSE locked[i]]
    /\ flock' = IF flock \in is THEN None ELSE flock        \* the kernel closes the file
Next == (\E a \in Ag : Want(a) \/ TakeThread(a) \/ GiveUpThread(a) \/ TakeFile(a) \/ Done(a) \/ GiveUpFile(a)
                       \/ Rel1(a) \/ Rel2(a) \/ Rel3(a) \/ Rel4(a)) \/ Kill(2)
Spec == Init /\ [][Next]_ivars
L == INSTANCE Lock WITH proc <- ProcOf, depth <- d
Mutex == Cardinality({a \in Ag : d[a] > 0}) <= 1
(* each step is a step of the lock or changes nothing of it *)
AStep == \/ d' = d
         \/ \E a \in Ag : L!Acquire(a) \/ L!Release(a)
         \/ L!Crash(2)
Refines == [][AStep]_ivars
(* the flock is never left behind: whoever has it is on the way or a holder *)
NoLeak == flock # None => \E a \in Ag : InstOf[a] = flock /\ (d[a] > 0 \/ pc[a] \in {"haveFile", "unfile"})
=============================================================================
