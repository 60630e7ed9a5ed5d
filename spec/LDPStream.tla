----------------------------- MODULE LDPStream -----------------------------
(***************************************************************************)
(* Reading a recording through lsl.reader.ldp (DRXFile, DRX8File, TBXFile, *)
(* DRSpecFile).  A recording is a sequence of time slots, each with one    *)
(* frame per identity (stand/tuning/polarization/channel block); a frame   *)
(* is known by its serial number, 0 if it was lost.  How frames were       *)
(* shuffled within the depth of the reader's ring, how the bytes are cut   *)
(* into files, what the sizes of the reads are: none of this shows.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
    slots,    \* slots[i][s] = serial number of the frame of identity s, or 0
    ns,       \* number of identities
    fill,     \* gaps of fewer slots than this are filled with zeros
    ignore,   \* larger gaps are skipped (TRUE) or are an error (FALSE)
    next,     \* the next slot that has not been handed out, in 1..Len(Slots)+1
    ok        \* FALSE after an error: only reset() is specified then

vars == <<slots, ns, fill, ignore, next, ok>>

InitWith(sl, n, f, ig) ==
    slots = sl /\ ns = n /\ fill = f /\ ignore = ig /\ next = 1 /\ ok = TRUE

N == Len(slots)
Empty(i) == \A s \in 1..ns : slots[i][s] = 0
(* the empty run that slot i is part of *)
Lo(i) == CHOOSE a \in 1..i : (\A j \in a..i : Empty(j)) /\ (a = 1 \/ ~Empty(a - 1))
Hi(i) == CHOOSE b \in i..N : (\A j \in i..b : Empty(j)) /\ (b = N \/ ~Empty(b + 1))
BigGap(i) == Empty(i) /\ Hi(i) - Lo(i) + 1 >= fill
(* The slots that are handed out, in order: all of them up to the last one with a frame in it, *)
(* without the gaps that are too large to fill.                                                *)
Keep(i) == ~BigGap(i)
(* the m-th slot (counting from 0) handed out from slot a on; N+1 if there are not that many *)
RECURSIVE Nth(_, _)
Nth(a, m) == IF a > N THEN N + 1
             ELSE IF ~Keep(a) THEN Nth(a + 1, m)
             ELSE IF m = 0 THEN a ELSE Nth(a + 1, m - 1)
RECURSIVE Left(_)
Left(a) == IF a > N THEN 0 ELSE (IF Keep(a) THEN 1 ELSE 0) + Left(a + 1)
Min(a, b) == IF a < b THEN a ELSE b
First == Nth(1, 0)

(* A read of n slots from slot a meets a gap it may not cross.  A gap is only one if something came *)
(* before it since the reader was opened, reset or repositioned, which is so here: slot 1 is there. *)
Blocked(a, n) ==
    ~ignore /\ \E i \in a..N : BigGap(i) /\ (\A j \in a..i-1 : Keep(j)) /\ i - a < n

(* the slots of a read of k from slot a, in order *)
Slots(a, k) == [j \in 1..k |-> Nth(a, j - 1)]
Data(a, k, s) == [j \in 1..k |-> slots[Nth(a, j - 1)][s]]

Read(k) == /\ ok /\ next' = IF k = 0 THEN next ELSE Nth(next, k - 1) + 1
           /\ UNCHANGED <<slots, ns, fill, ignore, ok>>
Fail == ok' = FALSE /\ UNCHANGED <<slots, ns, fill, ignore, next>>
Reset == next' = 1 /\ ok' = TRUE /\ UNCHANGED <<slots, ns, fill, ignore>>
(* d: by how many slots the reader says it moved *)
Offset(d) == ok /\ next' = next + d /\ UNCHANGED <<slots, ns, fill, ignore, ok>>
=============================================================================
