---------------------------- MODULE FrameBuffer ----------------------------
(***************************************************************************)
(* The reordering ring buffer of lsl.reader.buffer (DRX, DRX8, COR, VDIF   *)
(* and TBX flavours share this behaviour).                                 *)
(*                                                                         *)
(* A frame is [t, id, s]: its time slot, its identity within a slot (beam/ *)
(* tuning/polarization, baseline/channel, thread, ...) and a serial number *)
(* that stands for the data it carries.  Serial 0 is "a fill frame".       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
    ids,      \* the identities that make up a complete segment
    nseg,     \* number of ring segments
    buf,      \* time slot -> sequence of <<id, s>> in order of arrival
    mark,     \* the last time slot that was handed out (or the floor)
    stat,     \* [full, partial, missing, dropped]
    rel       \* history: the segments handed out, [t, fr: id -> serial]

vars == <<ids, nseg, buf, mark, stat, rel>>

Slots == DOMAIN buf
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

ZeroStat == [full |-> 0, partial |-> 0, missing |-> 0, dropped |-> 0]

InitWith(I, n) ==
    /\ ids = I
    /\ nseg = n
    /\ buf = << >>
    /\ mark = 0
    /\ stat = ZeroStat
    /\ rel = << >>

(* The slot's first frame for an identity wins; later ones are duplicates. *)
Have(q) == {q[i][1] : i \in 1..Len(q)}
FirstOf(q, d) == q[MinOf({i \in 1..Len(q) : q[i][1] = d})][2]
Segment(q) == [d \in ids |-> IF d \in Have(q) THEN FirstOf(q, d) ELSE 0]

NMissing(q) == Cardinality(ids \ Have(q))
NDup(q) == Len(q) - Cardinality(Have(q))

StatAfter(st, q) ==
    [full    |-> st.full + (IF NMissing(q) = 0 THEN 1 ELSE 0),
     partial |-> st.partial + (IF NMissing(q) = 0 THEN 0 ELSE 1),
     missing |-> st.missing + NMissing(q),
     dropped |-> st.dropped + NDup(q)]

Without(f, t) == [x \in DOMAIN f \ {t} |-> f[x]]

Filled == Cardinality(Slots) >= nseg

----------------------------------------------------------------------------
(* append()/put() of one frame *)
Put(t, d, s) ==
    /\ IF t <= mark
       THEN /\ stat' = [stat EXCEPT !.dropped = @ + 1]
            /\ UNCHANGED buf
       ELSE /\ buf' = IF t \in Slots
                      THEN [buf EXCEPT ![t] = Append(@, <<d, s>>)]
                      ELSE [x \in Slots \cup {t} |-> IF x = t THEN << <<d, s>> >> ELSE buf[x]]
            /\ UNCHANGED stat
    /\ UNCHANGED <<ids, nseg, mark, rel>>

(* the oldest segment leaves the buffer *)
ReleaseOldest ==
    LET t == MinOf(Slots) IN
    /\ rel' = Append(rel, [t |-> t, fr |-> Segment(buf[t])])
    /\ stat' = StatAfter(stat, buf[t])
    /\ buf' = Without(buf, t)
    /\ mark' = t
    /\ UNCHANGED <<ids, nseg>>

(* get(): nothing unless the ring is filled *)
Get == IF Filled THEN ReleaseOldest ELSE UNCHANGED vars

(* get(peek(require_filled=False)): the oldest segment, ready or not *)
GetOldest == IF Slots # {} THEN ReleaseOldest ELSE UNCHANGED vars

(* flush(): everything, oldest first *)
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN << >> ELSE LET m == MinOf(S) IN <<m>> \o SortedSeq(S \ {m})
FlushOrder == SortedSeq(Slots)
RECURSIVE StatFold(_, _)
StatFold(st, ts) == IF ts = << >> THEN st ELSE StatFold(StatAfter(st, buf[Head(ts)]), Tail(ts))
FlushSegments == [i \in 1..Len(FlushOrder) |-> [t |-> FlushOrder[i], fr |-> Segment(buf[FlushOrder[i]])]]
Flush ==
    /\ rel' = rel \o FlushSegments
    /\ stat' = StatFold(stat, FlushOrder)
    /\ buf' = << >>
    /\ mark' = IF Slots = {} THEN mark ELSE FlushOrder[Len(FlushOrder)]
    /\ UNCHANGED <<ids, nseg>>

(* reset(): a new stream may start at any time slot *)
Reset ==
    /\ buf' = << >>
    /\ mark' = 0
    /\ rel' = << >>
    /\ stat' = ZeroStat
    /\ UNCHANGED <<ids, nseg>>

----------------------------------------------------------------------------
(* What a user relies on *)

(* segments come out in strictly increasing time order *)
TimeOrdered == \A i \in 1..Len(rel) - 1 : rel[i].t < rel[i+1].t

(* a segment has exactly one frame per expected identity *)
Complete == \A i \in 1..Len(rel) : DOMAIN rel[i].fr = ids

(* a frame's data is handed out at most once *)
AtMostOnce ==
    \A i, j \in 1..Len(rel) : \A d, e \in ids :
        (rel[i].fr[d] # 0 /\ rel[i].fr[d] = rel[j].fr[e]) => (i = j /\ d = e)

(* nothing older than what was handed out stays behind *)
NothingStale == \A t \in Slots : t > mark

(* the statistics are an account of what happened *)
NFill == LET F[i \in 0..Len(rel)] ==
               IF i = 0 THEN 0 ELSE F[i-1] + Cardinality({d \in ids : rel[i].fr[d] = 0})
         IN F[Len(rel)]
Accounted ==
    /\ stat.full + stat.partial = Len(rel)
    /\ stat.missing = NFill

Safety == TimeOrdered /\ Complete /\ AtMostOnce /\ NothingStale /\ Accounted
=============================================================================
