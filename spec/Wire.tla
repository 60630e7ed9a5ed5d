------------------------------- MODULE Wire -------------------------------
(***************************************************************************)
(* Recordings as bytes.  A recording is a sequence of slots, each made of  *)
(* explicit header bytes and a payload that is an arithmetic progression   *)
(* of bytes (a, b) or, for the DR spectrometer, a list of numbers stored   *)
(* as 32-bit floats.  The state is the position of the file.  Reading at a *)
(* position has one outcome, which the bytes decide:                       *)
(*   OK       a frame; the position moves over it                          *)
(*   SYNC     no frame starts here; DRX/DRX8 move over one frame length,   *)
(*            the other readers stay, and the error tells the position     *)
(*   EOF      fewer bytes left than the frame needs                        *)
(*   RUNTIME  a frame with a sample format that cannot be unpacked         *)
(* After EOF and RUNTIME the position is not specified.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES fmt, slots, starts, pos
vars == <<fmt, slots, starts, pos>>

SlotLen(s) == Len(s.h) + s.n
RECURSIVE Cum(_, _, _)
Cum(ss, k, acc) == IF k > Len(ss) THEN << acc >> ELSE << acc >> \o Cum(ss, k+1, acc + SlotLen(ss[k]))
Starts(ss) == Cum(ss, 1, 0)                    \* one more than there are slots: the last is the size
Total == starts[Len(starts)]
Remaining(p) == Total - p

SlotOf(p) == CHOOSE k \in 1..Len(slots) : starts[k] <= p /\ p < starts[k+1]
IsBoundary(p) == \E k \in 1..Len(starts) : starts[k] = p
ByteIn(k, o) == LET s == slots[k] IN
    IF o < Len(s.h) THEN s.h[o+1] ELSE (s.a * (o - Len(s.h)) + s.b) % 256
Byte(p) == LET k == SlotOf(p) IN ByteIn(k, p - starts[k])
Bytes(p, n) == [i \in 1..n |-> Byte(p + i - 1)]

BE2(p) == 256*Byte(p) + Byte(p+1)
LE2(p) == Byte(p) + 256*Byte(p+1)
LE3(p) == Byte(p) + 256*Byte(p+1) + 65536*Byte(p+2)
(* only where the format keeps the value below 2^31 *)
LE4(p) == LE3(p) + 16777216*Byte(p+3)

N4(x) == IF x >= 8 THEN x - 16 ELSE x
N8(x) == IF x >= 128 THEN x - 256 ELSE x
RECURSIVE Pop(_)
Pop(x) == IF x = 0 THEN 0 ELSE (x % 2) + Pop(x \div 2)
Bit(x, k) == (x \div (2^k)) % 2
Pow2 == {1, 2, 4, 8, 16, 32, 64, 128}

Sync5C(p) == /\ Byte(p) = 222 /\ Byte(p+1) = 192 /\ Byte(p+2) = 222 /\ Byte(p+3) = 92

----------------------------------------------------------------------------
(* The formats *)
TbxStands(p) == BE2(p+16)
TbxChans(p) == BE2(p+18)
TbxMode(p) == TbxStands(p) \in {64, 128, 256} /\ TbxChans(p) \in {4, 8, 12, 16}

VLegacy(p) == Bit(Byte(p+3), 6)
VHdr(p) == IF VLegacy(p) = 1 THEN 16 ELSE 32
VLen(p) == 8 * LE3(p+8)
VBits(p) == (((Byte(p+15) \div 4)) % 32) + 1
VComplex(p) == Byte(p+15) \div 128
VChan(p) == 2^(Byte(p+11) % 32)

DMagic(p) == /\ Bytes(p, 4) = <<222, 192, 222, 192>> /\ Bytes(p+72, 4) = <<12, 237, 12, 237>>
DFormat(p) == Byte(p+45)
DFreqs(p) == LE4(p+48)
DFormats == {1, 2, 4, 8, 9, 6, 15, 16, 32, 64, 128, 144, 240}
DLen(p) == 76 + 8*Pop(DFormat(p))*DFreqs(p)

CorChans == {33, 72, 112, 192}
(* a COR frame does not tell its number of channels: it is that of the recording *)
CorLen(p) == LET k == SlotOf(p) IN SlotLen(slots[k])

FrameLen(p) ==
    CASE fmt = "drx" -> 4128
      [] fmt = "drx8" -> 8224
      [] fmt = "tbx" -> 28 + 2*TbxStands(p)*TbxChans(p)
      [] fmt = "cor" -> CorLen(p)
      [] fmt = "vdif" -> VLen(p)
      [] fmt = "drspec" -> DLen(p)

(* the outcomes that are allowed at p *)
Outcome(p) ==
    CASE fmt \in {"drx", "drx8"} ->
            IF Remaining(p) < FrameLen(p) THEN {"EOF"} ELSE IF Sync5C(p) THEN {"OK"} ELSE {"SYNC"}
      [] fmt = "tbx" ->
            IF Remaining(p) < 20 THEN {"EOF"}
            ELSE IF ~Sync5C(p) \/ ~TbxMode(p) THEN IF Remaining(p) < 8220 THEN {"EOF", "SYNC"} ELSE {"SYNC"}
            ELSE IF Remaining(p) < FrameLen(p) THEN {"EOF"} ELSE {"OK"}
      [] fmt = "cor" ->
            IF Remaining(p) = 0 THEN {"EOF"}
            ELSE IF ~Sync5C(p) THEN IF Remaining(p) < 6176 THEN {"EOF", "SYNC"} ELSE {"SYNC"}
            ELSE IF slots[SlotOf(p)].short THEN {"EOF"} ELSE {"OK"}
      [] fmt = "vdif" ->
            IF Remaining(p) < 16 THEN {"EOF"}
            ELSE IF VLen(p) < VHdr(p) THEN {"SYNC"}
            ELSE IF Remaining(p) < VLen(p) THEN {"EOF"}
            ELSE IF VBits(p) \notin {1, 2, 4, 8} THEN {"RUNTIME"} ELSE {"OK"}
      [] fmt = "drspec" ->
            IF Remaining(p) < 76 THEN {"EOF"}
            ELSE IF ~DMagic(p) THEN {"SYNC"}
            ELSE IF DFormat(p) \notin DFormats THEN {"RUNTIME"}
            ELSE IF Remaining(p) < DLen(p) THEN {"EOF"} ELSE {"OK"}

(* where the file is after an outcome; -1: not specified *)
After(p, o) ==
    CASE o = "OK" -> p + FrameLen(p)
      [] o = "SYNC" -> IF fmt \in {"drx", "drx8"} THEN p + FrameLen(p) ELSE p
      [] OTHER -> -1
----------------------------------------------------------------------------
(* Payload byte i (1-based) of the frame at p, whose header takes hl bytes; frames start at slots *)
Pay(p, hl, i) == LET s == slots[SlotOf(p)] IN ByteIn(SlotOf(p), hl + i - 1)

InitWith(f, ss) == fmt = f /\ slots = ss /\ starts = Starts(ss) /\ pos = 0
Seek(p) == pos' = p /\ UNCHANGED <<fmt, slots, starts>>
Read(o) == pos' = After(pos, o) /\ UNCHANGED <<fmt, slots, starts>>
Describe == UNCHANGED vars                      \* the functions that describe a recording do not move it
=============================================================================
