------------------------------- MODULE Bundle -------------------------------
(* Metadata bundles (lsl/common/metabundle.py, _metabundle_utils.py, mcs.py   *)
(* and sdm.py): tar files of C structures, texts and databases.  What the     *)
(* bytes of a member say follows from the C declarations and the rules for    *)
(* laying out a structure; which member answers a question follows from the   *)
(* names in the bundle that is there when the question is asked.              *)
(* Numbers are the bytes they have in memory, least significant first.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
----------------------------------------------------------------------------
(* C structures.  A field is <<name, type, number of elements>>.             *)
TSize(t) == CASE t \in {"char", "schar", "uchar"} -> 1
              [] t \in {"short", "ushort"} -> 2
              [] t \in {"int", "uint", "float"} -> 4
              [] OTHER -> 8                              \* long, ulong, llong, ullong, double
Up(n, a) == ((n + a - 1) \div a)*a
Lay(S) == FoldLeft(LAMBDA acc, f : LET o == Up(acc.end, TSize(f[2])) IN
                       [off |-> Append(acc.off, o), end |-> o + TSize(f[2])*f[3], al |-> IF TSize(f[2]) > acc.al THEN TSize(f[2]) ELSE acc.al],
                   [off |-> << >>, end |-> 0, al |-> 1], S)
Offsets(S) == Lay(S).off
Size(S) == LET l == Lay(S) IN Up(l.end, l.al)
At(S, nm) == CHOOSE i \in DOMAIN S : S[i][1] = nm
Raw(b, at, S, nm) == LET i == At(S, nm) IN SubSeq(b, at + Offsets(S)[i] + 1, at + Offsets(S)[i] + TSize(S[i][2])*S[i][3])
NulAt(s) == LET n == {i \in DOMAIN s : s[i] = 0} IN IF n = {} THEN Len(s) + 1 ELSE CHOOSE i \in n : \A j \in n : i <= j
CStr(s) == SubSeq(s, 1, NulAt(s) - 1)
White == {9, 10, 11, 12, 13, 32}
RECURSIVE LStrip(_)
LStrip(s) == IF s # << >> /\ Head(s) \in White THEN LStrip(Tail(s)) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF s # << >> /\ s[Len(s)] \in White THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == LStrip(RStrip(s))
(* a field as it is given to the user: characters up to the first NUL *)
Field(b, at, S, nm) == LET i == At(S, nm) IN IF S[i][2] = "char" THEN CStr(Raw(b, at, S, nm)) ELSE Raw(b, at, S, nm)
Swap(s, n) == [i \in DOMAIN s |-> LET k == (i - 1) \div n IN s[k*n + n - ((i - 1) % n)]]
(* small numbers out of their bytes *)
U(s) == IF Len(s) = 1 THEN s[1] ELSE IF Len(s) = 2 THEN s[1] + 256*s[2] ELSE s[1] + 256*s[2] + 65536*s[3] + 16777216*s[4]

Subs == <<"asp", "ndp", "dr1", "dr2", "dr3", "dr4", "dr5", "shl", "mcs">>
Mib(p) == [i \in 1..9 |-> <<p \o Subs[i], "short", 1>>]
SSF == <<<<"version", "ushort", 1>>, <<"project", "char", 9>>, <<"session", "uint", 1>>, <<"cra", "ushort", 1>>, <<"beam", "short", 1>>, <<"spc", "char", 32>>,
         <<"mjd", "ulong", 1>>, <<"mpm", "ulong", 1>>, <<"dur", "ulong", 1>>, <<"nobs", "uint", 1>>>> \o Mib("mrp_") \o Mib("mup_") \o
       <<<<"sch", "schar", 1>>, <<"exe", "schar", 1>>, <<"smib", "schar", 1>>, <<"des", "schar", 1>>>>
OSF == <<<<"version", "ushort", 1>>, <<"project", "char", 9>>, <<"session", "uint", 1>>, <<"beam", "short", 1>>, <<"spc", "char", 32>>, <<"obs", "uint", 1>>,
         <<"mjd", "ulong", 1>>, <<"mpm", "ulong", 1>>, <<"dur", "ulong", 1>>, <<"mode", "ushort", 1>>, <<"bdm", "char", 32>>, <<"ra", "float", 1>>, <<"dec", "float", 1>>,
         <<"b", "ushort", 1>>, <<"freq1", "uint", 1>>, <<"freq2", "uint", 1>>, <<"bw", "ushort", 1>>, <<"nsteps", "uint", 1>>, <<"radec", "ushort", 1>>>>
OSFS == <<<<"c1", "float", 1>>, <<"c2", "float", 1>>, <<"t", "uint", 1>>, <<"freq1", "uint", 1>>, <<"freq2", "uint", 1>>, <<"b", "ushort", 1>>>>
BEAM == <<<<"delay", "ushort", 512>>, <<"gain", "short", 1024>>>>
OSF2 == <<<<"fee", "short", 512>>, <<"flt", "short", 256>>, <<"at1", "short", 256>>, <<"at2", "short", 256>>, <<"at3", "short", 256>>, <<"samples", "uint", 1>>,
          <<"drxgain", "short", 1>>, <<"alignment", "uint", 1>>>>
CMD == <<<<"tv", "long", 2>>, <<"asap", "int", 1>>, <<"sid", "int", 1>>, <<"cid", "int", 1>>, <<"len", "int", 1>>>>
STAT == <<<<"summary", "int", 1>>, <<"info", "char", 256>>, <<"tv", "long", 2>>>>
PARTS == <<<<"s_fee", "int", 256>>, <<"s_rpd", "int", 512>>, <<"s_sep", "int", 512>>, <<"s_arb", "int", 512>>, <<"s_snap", "int", 1024>>, <<"s_server", "int", 5>>, <<"s_dr", "int", 5>>>>
ANTS == <<<<"ant", "int", 512>>, <<"ndpo", "int", 5>>>>
SETS == Mib("mrp_") \o Mib("mup_") \o <<<<"fee", "short", 256>>, <<"flt", "short", 256>>, <<"at1", "short", 256>>, <<"at2", "short", 256>>, <<"at3", "short", 256>>, <<"drxgain", "short", 1>>>>
Names(S) == {S[i][1] : i \in DOMAIN S}
Systems == <<"station", "shl", "asp", "ndp", "dr1", "dr2", "dr3", "dr4", "dr5">>
Layouts == [ses |-> [o |-> Offsets(SSF), f |-> SSF, n |-> Size(SSF)], osf |-> [o |-> Offsets(OSF), f |-> OSF, n |-> Size(OSF)],
            osfs |-> [o |-> Offsets(OSFS), f |-> OSFS, n |-> Size(OSFS)], beam |-> [o |-> Offsets(BEAM), f |-> BEAM, n |-> Size(BEAM)],
            osf2 |-> [o |-> Offsets(OSF2), f |-> OSF2, n |-> Size(OSF2)], cmd |-> [o |-> Offsets(CMD), f |-> CMD, n |-> Size(CMD)],
            stat |-> [o |-> Offsets(STAT), f |-> STAT, n |-> Size(STAT)], parts |-> [o |-> Offsets(PARTS), f |-> PARTS, n |-> Size(PARTS)],
            ants |-> [o |-> Offsets(ANTS), f |-> ANTS, n |-> Size(ANTS)], sets |-> [o |-> Offsets(SETS), f |-> SETS, n |-> Size(SETS)]]

----------------------------------------------------------------------------
(* What the members say.                                                      *)
Fail == [fail |-> TRUE]
SesOf(b) == [nm \in Names(SSF) |-> IF nm = "project" THEN Strip(Field(b, 0, SSF, nm)) ELSE Field(b, 0, SSF, nm)]
End(k) == IF k = "step" THEN <<254, 255, 255, 255>> ELSE <<255, 255, 255, 255>>
RECURSIVE StepsOf(_, _, _, _)
StepsOf(b, at, n, out) ==
    IF n = 0 THEN [steps |-> out, at |-> at, ok |-> TRUE]
    ELSE IF at + Size(OSFS) > Len(b) THEN [steps |-> out, at |-> at, ok |-> FALSE]
    ELSE LET st == [nm \in Names(OSFS) |-> Field(b, at, OSFS, nm)]
             a1 == at + Size(OSFS)
             spec == U(st.b) = 3
             a2 == IF spec THEN a1 + Size(BEAM) ELSE a1
             full == [st |-> st, delay |-> IF spec /\ a2 <= Len(b) THEN Raw(b, a1, BEAM, "delay") ELSE << >>, gain |-> IF spec /\ a2 <= Len(b) THEN Raw(b, a1, BEAM, "gain") ELSE << >>] IN
         IF a2 + 4 > Len(b) \/ SubSeq(b, a2 + 1, a2 + 4) # End("step") THEN [steps |-> out, at |-> a2, ok |-> FALSE]
         ELSE StepsOf(b, a2 + 4, n - 1, Append(out, full))
ObsOf(b) ==
    IF Len(b) < Size(OSF) THEN Fail
    ELSE LET h == [nm \in Names(OSF) |-> IF nm = "project" THEN Strip(Field(b, 0, OSF, nm)) ELSE Field(b, 0, OSF, nm)]
             many == h.nsteps[3] > 0 \/ h.nsteps[4] > 0 \/ U(SubSeq(h.nsteps, 1, 2)) > 1024 IN
         IF many \/ U(h.mode) \notin 1..11 THEN Fail
         ELSE LET s == StepsOf(b, Size(OSF), U(h.nsteps), << >>) IN
              IF ~s.ok \/ s.at + Size(OSF2) > Len(b) THEN Fail
              ELSE IF Field(b, s.at, OSF2, "alignment") # End("file") THEN Fail
              ELSE [h |-> h, steps |-> s.steps, f |-> [nm \in Names(OSF2) \ {"alignment"} |-> Field(b, s.at, OSF2, nm)]]
Broken == <<[broken |-> TRUE]>>
RECURSIVE CsOf(_, _, _)
CsOf(b, at, out) ==
    IF at + Size(CMD) > Len(b) THEN out
    ELSE LET c == [nm \in Names(CMD) |-> Field(b, at, CMD, nm)]
             n == U(c.len)
             a == at + Size(CMD) IN
         IF SubSeq(c.tv, 1, 8) = <<0, 0, 0, 0, 0, 0, 0, 0>> THEN out
         ELSE IF U(c.sid) \in {13, 19} \/ U(c.sid) \notin 1..20 \/ U(c.cid) \notin 0..45 THEN Broken
         ELSE CsOf(b, a + n, Append(out, [tv |-> c.tv, asap |-> U(c.asap) # 0, sid |-> U(c.sid), cid |-> U(c.cid), len |-> n, data |-> SubSeq(b, a + 1, a + n)]))
SdmOf(b) ==
    LET n == Size(STAT)
        p == 9*n
        q == p + Size(PARTS)
        r == q + Size(ANTS) IN
    [sys |-> [i \in 1..9 |-> [nm \in Names(STAT) |-> Field(b, (i - 1)*n, STAT, nm)]],
     parts |-> [nm \in Names(PARTS) |-> Field(b, p, PARTS, nm)],
     ants |-> [nm \in Names(ANTS) |-> Field(b, q, ANTS, nm)],
     sets |-> [nm \in Names(SETS) |-> Field(b, r, SETS, nm)]]
(* The lines of a session metadata file: observation, tag, barcode, outcome, message.  "Err" stands in for the barcode of the observation before. *)
RECURSIVE MetaOf(_, _)
MetaOf(lines, out) ==
    IF lines = << >> THEN out
    ELSE LET x == Head(lines)
             was == SelectSeq(out, LAMBDA y : y.id = x.id - 1)
             bc == IF x.form = "new" /\ x.barcode = "Err" THEN (IF was = << >> THEN "UNK" ELSE was[1].barcode) ELSE x.barcode
             y == [id |-> x.id, tag |-> x.tag, barcode |-> bc, outcome |-> x.outcome, msg |-> IF x.form = "four" THEN "UNK" ELSE x.msg] IN
         MetaOf(Tail(lines), Append(SelectSeq(out, LAMBDA z : z.id # x.id), y))
(* A database of settings: entries <<index, type, value>>; the index is a sequence of numbers, or << >> for one that is not numeric. *)
Readable(e) == ~e.branch /\ e.idx # << >>
AspOf(entries) ==
    LET In(p) == {i \in DOMAIN entries : Readable(entries[i]) /\ Len(entries[i].idx) = Len(p) + 1 /\ SubSeq(entries[i].idx, 1, Len(p)) = p /\ entries[i].idx[Len(p) + 1] \in 1..256}
        Map(p) == [n \in 1..256 |-> LET c == {i \in In(p) : entries[i].idx[Len(p) + 1] = n} IN IF c = {} THEN -1 ELSE entries[CHOOSE i \in c : TRUE].v] IN
    [flt |-> Map(<<3>>), at1 |-> Map(<<4, 1>>), at2 |-> Map(<<4, 2>>), at3 |-> Map(<<4, 3>>)]
NoAsp == [p \in {"flt", "at1", "at2", "at3"} |-> [n \in 1..256 |-> -1]]
Commonest(q, v) == \A w \in {q[i] : i \in DOMAIN q} : Cardinality({i \in DOMAIN q : q[i] = w}) <= Cardinality({i \in DOMAIN q : q[i] = v})

----------------------------------------------------------------------------
(* Which member answers.  A member has a prefix, a stem and an extension; it  *)
(* is usable if it is a regular file that stays within the bundle.            *)
Full(m) == m.pre \o m.stem \o m.ext
Safe(m) == m.kind = "file" /\ m.pre \in {"", "./", "sub/"}
Top(m) == m.pre \in {"", "./"}
Exact(b, nm) == LET q == SelectSeq(b, LAMBDA m : Full(m) = nm) IN IF q = << >> THEN << >> ELSE <<q[Len(q)]>>
Matching(b, P(_)) == SelectSeq(b, P)
(* the candidates, best first *)
Candidates(b, fn, base) ==
    CASE fn = "ses" -> Exact(b, base \o ".ses") \o Matching(b, LAMBDA m : m.ext = ".ses")
      [] fn = "meta" -> Exact(b, base \o "_metadata.txt") \o Matching(b, LAMBDA m : m.ext = "_metadata.txt")
      [] fn = "cs" -> Matching(b, LAMBDA m : m.ext = ".cs")
      [] fn = "sdf" -> Matching(b, LAMBDA m : m.ext = ".txt" /\ m.stem # "mindelay")
      [] fn = "sdm" -> Exact(b, "dynamic/sdm.dat")
      [] fn = "mindelay" -> Exact(b, "mindelay.txt")
      [] fn = "host" -> Exact(b, "mcs.host")
      [] fn = "ssmif" -> Exact(b, "ssmif.dat")
      [] fn = "begin" -> Matching(b, LAMBDA m : m.ext \in {"_ASP_begin.gdb", "_ASP_begin.pag"})
      [] fn = "end" -> Matching(b, LAMBDA m : m.ext \in {"_ASP_end.gdb", "_ASP_end.pag"})
      [] OTHER -> << >>
Observations(b) == SortSeq(SelectSeq(b, LAMBDA m : m.ext = ".obs" /\ Safe(m) /\ Top(m)), LAMBDA x, y : x.ord < y.ord)
=============================================================================
