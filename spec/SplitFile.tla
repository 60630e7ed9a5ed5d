----------------------------- MODULE SplitFile -----------------------------
(***************************************************************************)
(* A recording that was cut into parts, read back through                  *)
(* lsl.reader.utils.SplitFileWrapper (and any file handle under            *)
(* FilePositionSaver).  The specification is that of ONE file holding the  *)
(* parts' bytes end to end: where the cuts are must not be observable.     *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES
    parts,    \* the parts, each a sequence of bytes
    pos,      \* position in the whole
    closed,
    saved     \* positions remembered by open FilePositionSaver contexts

vars == <<parts, pos, closed, saved>>

RECURSIVE Concat(_)
Concat(ps) == IF ps = << >> THEN << >> ELSE Head(ps) \o Concat(Tail(ps))
Whole == Concat(parts)
Total == Len(Whole)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

InitWith(ps) == parts = ps /\ pos = 0 /\ closed = FALSE /\ saved = << >>

(* what a read of n bytes (negative: everything) returns at position p *)
ReadResult(p, n) ==
    IF p >= Total THEN << >>
    ELSE SubSeq(Whole, p + 1, IF n < 0 THEN Total ELSE Min(p + n, Total))

Read(n) ==
    /\ ~closed
    /\ pos' = pos + Len(ReadResult(pos, n))
    /\ UNCHANGED <<parts, closed, saved>>

Target(off, whence) ==
    CASE whence = 0 -> off [] whence = 1 -> pos + off [] OTHER -> Total + off

(* a seek before the start of the file fails and does not move *)
Seek(off, whence) ==
    /\ ~closed
    /\ pos' = IF Target(off, whence) < 0 THEN pos ELSE Target(off, whence)
    /\ UNCHANGED <<parts, closed, saved>>

Enter == ~closed /\ saved' = Append(saved, pos) /\ UNCHANGED <<parts, pos, closed>>
(* however the block is left *)
Leave == /\ ~closed /\ saved # << >>
         /\ pos' = saved[Len(saved)]
         /\ saved' = SubSeq(saved, 1, Len(saved) - 1)
         /\ UNCHANGED <<parts, closed>>
Close == closed' = TRUE /\ UNCHANGED <<parts, pos, saved>>

----------------------------------------------------------------------------
InRange == pos >= 0
(* reading on from any position to the end gives exactly the rest of the whole, whatever the step *)
RECURSIVE Drain(_, _)
Drain(p, n) == LET r == ReadResult(p, n) IN IF r = << >> THEN << >> ELSE r \o Drain(p + Len(r), n)
StepFree == \A n \in 1..3 : Drain(pos, n) = ReadResult(pos, -1)
=============================================================================
