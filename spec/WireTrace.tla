----------------------------- MODULE WireTrace -----------------------------
EXTENDS Wire, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, dead
allvars == <<vars, l, dead>>
E == Trace[l]
O == IF E.exc = "" THEN "OK" ELSE E.exc
Min(a, b) == IF a < b THEN a ELSE b
----------------------------------------------------------------------------
(* header fields: they spell the bytes of the header *)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s)+1-i]]
Hdr ==
    CASE fmt \in {"drx", "drx8"} -> Bytes(pos+4, 28)
      [] fmt = "tbx" -> Bytes(pos+4, 24)
      [] fmt = "cor" -> Bytes(pos+4, 28)
      [] fmt = "vdif" ->
            << Byte(pos+3) \div 128, VLegacy(pos), LE3(pos) + 16777216*(Byte(pos+3) % 64),
               Byte(pos+7) % 64, LE3(pos+4), Byte(pos+11) \div 32, VChan(pos), LE3(pos+8),
               VComplex(pos), VBits(pos), Byte(pos+14) + 256*(Byte(pos+15) % 4), LE2(pos+12) >>
            \o (IF VLegacy(pos) = 1 THEN [i \in 1..16 |-> 0] ELSE Bytes(pos+16, 16))
      [] fmt = "drspec" ->
            << Byte(pos+44), Byte(pos+45) >> \o Bytes(pos+14, 2) \o Bytes(pos+12, 2) \o Bytes(pos+52, 4)
            \o Bytes(pos+4, 8) \o Bytes(pos+16, 8) \o Bytes(pos+24, 16) \o Bytes(pos+40, 4) \o Bytes(pos+56, 16)

FilterCode(d) == CASE d = 784 -> 1 [] d = 392 -> 2 [] d = 196 -> 3 [] d = 98 -> 4 [] d = 40 -> 5
                   [] d = 20 -> 6 [] d = 10 -> 7 [] OTHER -> 0
Products(f) == SelectSeq(<<1, 2, 4, 8, 16, 32, 64, 128>>, LAMBDA b : (f \div b) % 2 = 1)
(* what the frame says about itself *)
Derived ==
    CASE fmt \in {"drx", "drx8"} ->
            LET x == Byte(pos+4) IN
            << x % 8, (x \div 8) % 8, x \div 128, IF fmt = "drx" THEN 1 - Bit(x, 6) ELSE Bit(x, 6),
               FilterCode(BE2(pos+12)) >> \o Bytes(pos+24, 4)
      [] fmt = "tbx" -> << IF Byte(pos+4) = 8 THEN 1 ELSE 0, TbxStands(pos), TbxChans(pos) >>
      [] fmt = "cor" -> << IF Byte(pos+4) \in {2, 6} THEN 1 ELSE 0 >>
      [] fmt = "vdif" -> << LE2(pos+12), Byte(pos+14) + 256*(Byte(pos+15) % 4) >>
      [] fmt = "drspec" -> << IF DFormat(pos) < 16 THEN 1 ELSE 0, IF DFormat(pos) < 16 THEN 0 ELSE 1, DFreqs(pos),
                              FilterCode(LE2(pos+14)) >> \o Products(DFormat(pos))
----------------------------------------------------------------------------
(* samples *)
Shape ==
    CASE fmt \in {"drx", "drx8"} -> <<4096>>
      [] fmt = "tbx" -> <<TbxChans(pos), TbxStands(pos), 2>>
      [] fmt = "cor" -> <<(FrameLen(pos) - 32) \div 32, 2, 2>>
      [] fmt = "vdif" ->
            LET ns == (((VLen(pos) - VHdr(pos)) * 8) \div VBits(pos)) \div (1 + VComplex(pos)) IN
            IF VChan(pos) = 1 THEN <<ns>> ELSE <<VChan(pos), ns \div VChan(pos)>>
      [] fmt = "drspec" -> <<2 * Len(Products(DFormat(pos))), DFreqs(pos)>>

Abs(x) == IF x < 0 THEN -x ELSE x
Levels2 == <<-3, -1, 1, 3>>
Levels2f == <<-3335900, -1000000, 1000000, 3335900>>
VOk(v, bits, lev, x) ==                      \* x: what was read, an integer or a float times 10^6
    IF v = "i"
    THEN x = (CASE bits = 1 -> 2*lev - 1 [] bits = 2 -> Levels2[lev+1] [] bits = 4 -> lev - 8 [] bits = 8 -> lev - 128)
    ELSE CASE bits = 1 -> x = (2*lev - 1) * 1000000
           [] bits = 2 -> Abs(x - Levels2f[lev+1]) <= 2
           [] bits = 4 -> Abs(x*295 - (lev - 8)*100000000) <= 600
           [] bits = 8 -> Abs(4*x - (2*lev - 255)*15625) <= 8
VData ==
    LET k == SlotOf(pos)
        bits == VBits(pos)
        hl == VHdr(pos)
        c == 1 + VComplex(pos)
        nc == VChan(pos)
        nt == ((((VLen(pos) - hl) * 8) \div bits) \div c) \div nc
        spb == 8 \div bits
        Lev(r) == (ByteIn(k, hl + r \div spb) \div (2^(bits*(r % spb)))) % (2^bits)
    IN /\ Len(E.data) = nc*nt*c
       /\ \A ch \in 0..(nc-1), t \in 0..(nt-1), q \in 0..(c-1) :
            VOk(E.v, bits, Lev((t*nc + ch)*c + q), E.data[(ch*nt + t)*c + q + 1])

CorData ==
    LET k == SlotOf(pos)
        n == FrameLen(pos) - 32
        auto == Bytes(pos+28, 2) = Bytes(pos+30, 2)
        B(i) == ByteIn(k, 32 + i)
    IN /\ Len(E.data) = n
       /\ \A i \in 0..(n-1) :
            IF auto /\ (i % 32) \div 8 = 2
            THEN LET x == B(i - 8) IN E.data[i+1] = IF i % 8 = 7 THEN (x + 128) % 256 ELSE x
            ELSE E.data[i+1] = B(i)

(* products of one tuning are interleaved; every product is normalized by the transform length and the fills *)
DrsData ==
    LET s == slots[SlotOf(pos)]
        ps == Products(DFormat(pos))
        np == Len(ps)
        nf == DFreqs(pos)
        Fill(i) == LE4(pos + 24 + 4*i)
        Norm(b, t) == nf * (CASE b = 1 -> Fill(2*t) [] b = 8 -> Fill(2*t + 1)
                              [] OTHER -> Min(Fill(2*t), Fill(2*t + 1)))
    IN /\ Len(E.data) = 2*np*nf
       /\ \A j \in 0..(np-1), t \in 0..1, i \in 0..(nf-1) :
            E.data[(2*j + t)*nf + i + 1] * Norm(ps[j+1], t) = s.f[np*nf*t + np*i + j + 1]

Data ==
    CASE fmt = "drx" -> LET k == SlotOf(pos) IN
            Len(E.data) = 8192 /\ \A i \in 0..4095 : LET b == ByteIn(k, 32 + i) IN
                E.data[2*i+1] = N4(b \div 16) /\ E.data[2*i+2] = N4(b % 16)
      [] fmt = "drx8" -> LET k == SlotOf(pos) IN
            Len(E.data) = 8192 /\ \A i \in 0..8191 : E.data[i+1] = N8(ByteIn(k, 32 + i))
      [] fmt = "tbx" -> LET k == SlotOf(pos)
                            n == 2*TbxStands(pos)*TbxChans(pos) IN
            Len(E.data) = 2*n /\ \A i \in 0..(n-1) : LET b == ByteIn(k, 28 + i) IN
                E.data[2*i+1] = N4(b \div 16) /\ E.data[2*i+2] = N4(b % 16)
      [] fmt = "cor" -> CorData
      [] fmt = "vdif" -> VData
      [] fmt = "drspec" -> DrsData
----------------------------------------------------------------------------
(* descriptions of the recording from the position on *)
K == SlotOf(pos)
Ns == Len(slots)
Ok(j) == Outcome(starts[j]) = {"OK"}
At(j, o) == ByteIn(j, o)
Set2Seq(S) == LET RECURSIVE G(_) G(T) == IF T = {} THEN << >>
                    ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN << m >> \o G(T \ {m}) IN G(S)
AllOk(a, b) == b <= Ns /\ \A j \in a..b : Ok(j)
Beams == {At(j, 4) % 8 : j \in K..(K+31)}
BeamIds(b) == Cardinality({At(j, 4) : j \in {x \in K..(K+31) : At(x, 4) % 8 = b}})
TChan(j) == 65536*At(j, 13) + 256*At(j, 14) + At(j, 15)          \* below 2^24 in what is recorded
TbxAll == {j \in K..Ns : Ok(j) /\ At(j, 4) = 8}
TbxChs == {TChan(j) : j \in TbxAll}
TCount(j) == 65536*At(j, 5) + 256*At(j, 6) + At(j, 7)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
CChan(j) == 256*At(j, 12) + At(j, 13)
CorFirst == K..Min(K+63, Ns)

(* {} : not determined, only that the position stays *)
Expected ==
    CASE E.name = "drx_rate" -> IF Ok(K) THEN {<<FilterCode(BE2(pos+12))>>} ELSE {}
      [] E.name = "drx_beams" -> IF AllOk(K, K+31) THEN {<<Cardinality(Beams)>>} ELSE {}
      [] E.name = "drx_frames" -> IF AllOk(K, K+31) /\ Beams \subseteq 1..4
                                  THEN {<<BeamIds(1), BeamIds(2), BeamIds(3), BeamIds(4)>>} ELSE {}
      [] E.name = "tbx_size" -> IF Ok(K) /\ At(K, 4) = 8 THEN {<<FrameLen(pos)>>} ELSE {}
      [] E.name = "tbx_frames" -> IF Ok(K) /\ At(K, 4) = 8 THEN {<<Cardinality(TbxChs)>>} ELSE {}
      [] E.name = "tbx_channels" -> IF Ok(K) /\ At(K, 4) = 8 THEN {<<Cardinality(TbxChs) * TbxChans(pos)>>} ELSE {}
      [] E.name = "tbx_first" -> IF AllOk(K, Ns) /\ TbxAll # {} THEN {Set2Seq(TbxChs)} ELSE {}
      [] E.name = "tbx_count" -> IF AllOk(K, Ns) /\ TbxAll # {} /\ Cardinality(TbxChs) = Cardinality(TbxAll)
                                 THEN {<<MinOf({TCount(j) : j \in TbxAll})>>} ELSE {}
      [] E.name = "cor_size" -> IF Ok(K) /\ At(K, 4) \in {2, 6} THEN {<<FrameLen(pos)>>} ELSE {}
      [] E.name = "cor_channels" -> IF AllOk(K, Ns)
                                    THEN {<<Cardinality({CChan(j) : j \in CorFirst}) * ((FrameLen(pos)-32) \div 32)>>} ELSE {}
      [] E.name = "cor_first" -> IF AllOk(K, Ns) /\ \A j \in K..Ns : At(j, 4) \in {2, 6}
                                 THEN {Set2Seq({CChan(j) : j \in K..Ns})} ELSE {}
      [] E.name = "vdif_size" -> IF Ok(K) THEN {<<VLen(pos)>>} ELSE {}
      [] E.name = "vdif_threads" -> IF AllOk(K, Ns)
                                    THEN {<<Cardinality({At(j, 14) + 256*(At(j, 15) % 4) : j \in K..Min(Ns, K+1023)})>>} ELSE {}
      [] E.name = "vdif_fps" -> IF E.regular > 0 THEN {<<E.regular>>} ELSE {}
      [] E.name = "vdif_rate" -> IF E.regular > 0 THEN {<<E.regular * Shape[Len(Shape)]>>} ELSE {}
      [] E.name = "drs_size" -> IF Ok(K) THEN {<<DLen(pos)>>} ELSE {}
      [] E.name = "drs_nfft" -> IF Ok(K) THEN {Bytes(pos+52, 4)} ELSE {}
      [] E.name = "drs_lfft" -> IF Ok(K) THEN {<<DFreqs(pos)>>} ELSE {}
      [] E.name = "drs_products" -> IF Ok(K) THEN {Products(DFormat(pos))} ELSE {}
      [] E.name = "drs_linear" -> IF Ok(K) THEN {<<IF DFormat(pos) < 16 THEN 1 ELSE 0, IF DFormat(pos) < 16 THEN 0 ELSE 1>>} ELSE {}
      [] E.name = "drs_rate" -> IF Ok(K) THEN {<<FilterCode(LE2(pos+14))>>} ELSE {}
----------------------------------------------------------------------------
Clauses ==
    CASE E.op = "read" ->
            IF pos < 0 THEN {}
            ELSE IF O \notin Outcome(pos) THEN {"outcome"}
            ELSE IF O = "SYNC" THEN {c \in {"sync-location", "position"} :
                    CASE c = "sync-location" -> E.loc # pos
                      [] c = "position" -> E.pos # After(pos, O)}
            ELSE IF O = "OK" THEN
                    IF E.pos # After(pos, O) THEN {"position"}
                    ELSE {c \in {"header", "derived", "shape", "samples"} :
                        CASE c = "header" -> E.hdr # Hdr
                          [] c = "derived" -> E.drv # Derived
                          [] c = "shape" -> E.shape # Shape
                          [] c = "samples" -> E.shape = Shape /\ ~Data}
            ELSE {}
      [] E.op = "describe" ->
            IF E.pos # pos THEN {"describing-moves-the-file"}
            ELSE IF pos >= Total THEN {c \in {"describes-nothing"} : E.exc = "" /\ E.name \in {"drx_rate", "vdif_size", "drs_size"}}
            ELSE LET x == Expected IN
                 IF x = {} THEN {}
                 ELSE IF E.exc # "" THEN {"describe-raises"}
                 ELSE {c \in {"description"} : E.val \notin x}
      [] E.op = "seek" -> {c \in {"seek"} : E.exc # ""}
Move ==
    CASE E.op = "read" /\ pos >= 0 -> Read(O)
      [] E.op = "seek" -> Seek(E.p)
      [] OTHER -> UNCHANGED vars
Report(cs) == \A c \in cs : CSVWrite("%1$s#%2$s", <<ToString(l), c>>, IOEnv.VERDICT)
Init == InitWith("drx", << >>) /\ l = 1 /\ dead = FALSE
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF E.op = "begin"
       THEN fmt' = E.fmt /\ slots' = E.slots /\ starts' = Starts(E.slots) /\ pos' = 0 /\ dead' = FALSE
       ELSE IF dead THEN UNCHANGED <<vars, dead>>
       ELSE LET cs == Clauses IN
            IF cs = {} THEN Move /\ UNCHANGED dead
            ELSE Report(cs) /\ dead' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][Next]_allvars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
