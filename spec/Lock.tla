-------------------------------- MODULE Lock --------------------------------
(***************************************************************************)
(* lsl.misc.file_lock: FileLock (threads and processes) and MemoryLock     *)
(* (threads).  An agent is a thread of some process using some lock        *)
(* instance; instances on the same name are one lock.  The lock nests      *)
(* within an agent and goes with the process that dies.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
    proc,     \* proc[a]: the process agent a is a thread of
    depth     \* depth[a]: how many times a has acquired the lock and not released it
vars == <<proc, depth>>
Agents == DOMAIN depth
Holders == {a \in Agents : depth[a] > 0}
Free(a) == \A b \in Agents \ {a} : depth[b] = 0

(* the outcome of a try is determined: it succeeds when nobody else has the lock *)
Try(a) == /\ depth' = IF Free(a) THEN [depth EXCEPT ![a] = @ + 1] ELSE depth
          /\ UNCHANGED proc
Acquire(a) == Free(a) /\ Try(a)
Release(a) == /\ depth' = IF depth[a] > 0 THEN [depth EXCEPT ![a] = @ - 1] ELSE depth
              /\ UNCHANGED proc
Crash(p) == depth' = [a \in Agents |-> IF proc[a] = p THEN 0 ELSE depth[a]] /\ UNCHANGED proc
----------------------------------------------------------------------------
MutualExclusion == Cardinality(Holders) <= 1
=============================================================================
