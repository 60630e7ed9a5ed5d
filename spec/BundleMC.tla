------------------------------ MODULE BundleMC ------------------------------
(* Bundles put in place, replaced and asked, one step of a question at a time. *)
EXTENDS Bundle, Randomization, Json, IOUtils, CSV
CONSTANTS MaxOps, Emit
St == INSTANCE Station
VARIABLES fs, cache, q, tmp, out, ans, hist, ops, stamp
vars == <<fs, cache, q, tmp, out, ans, hist, ops, stamp>>
One(X) == IF Emit THEN RandomSubset(1, X) ELSE X
Rare(n) == RandomElement(1..n) = 1
Paths == {"LT001_0001", "other"}
None == [id |-> 0, b |-> << >>]
Idle == [ph |-> "idle"]
Init == /\ fs = [p \in Paths |-> None] /\ cache = [key |-> <<"", 0>>, b |-> << >>] /\ q = Idle /\ tmp = {} /\ out = {} /\ ans = << >>
        /\ hist = << >> /\ ops = 0 /\ stamp = 0
M(pre, stem, ext, kind, c) == [pre |-> pre, stem |-> stem, ext |-> ext, kind |-> kind, ord |-> c, c |-> c]
----------------------------------------------------------------------------
(* The abstract machine: the content of a member is a number. *)
Few == {M(how[1], stem, ext, how[2], 0) : how \in {<<"", "file">>, <<"", "sym">>, <<"../", "file">>}, stem \in Paths, ext \in {".ses", ".obs"}}
PutSmall ==
    /\ ~Emit /\ q = Idle
    /\ \E p \in Paths, b \in {<< >>} \cup {<<m>> : m \in Few} \cup {<<m, n>> : m, n \in {x \in Few : x.ext = ".ses"}} \cup {<<m, n>> : m, n \in {x \in Few : x.ext = ".obs"}} :
         /\ fs' = [fs EXCEPT ![p] = [id |-> stamp + 1, b |-> [i \in DOMAIN b |-> [b[i] EXCEPT !.c = 10*(stamp + 1) + i, !.ord = i]]]]
         /\ stamp' = stamp + 1 /\ ops' = ops + 1 /\ UNCHANGED <<cache, q, tmp, out, ans, hist>>
Ask == /\ ~Emit /\ q = Idle
       /\ \E p \in Paths, fn \in {"ses", "obs"} :
            /\ fs[p].id # 0
            /\ q' = [ph |-> "open", p |-> p, fn |-> fn, at |-> fs[p].b, todo |-> << >>, got |-> << >>]
       /\ ops' = ops + 1 /\ UNCHANGED <<fs, cache, tmp, out, ans, hist, stamp>>
Open == /\ q.ph = "open"
        /\ LET key == <<q.p, fs[q.p].id>>
               b == IF cache.key = key THEN cache.b ELSE fs[q.p].b
               pick == IF q.fn = "obs" THEN SelectSeq(b, LAMBDA m : m.ext = ".obs")
                       ELSE LET c == Candidates(b, q.fn, q.p) IN IF c = << >> THEN << >> ELSE <<c[1]>> IN
           /\ cache' = [key |-> key, b |-> b]
           /\ q' = [q EXCEPT !.ph = "extract", !.todo = pick, !.at = b]
        /\ UNCHANGED <<fs, tmp, out, ans, hist, ops, stamp>>
Extract == /\ q.ph = "extract"
           /\ IF q.todo = << >> THEN q' = [q EXCEPT !.ph = "read"] /\ UNCHANGED <<tmp, out>>
              ELSE LET m == Head(q.todo) IN
                   /\ q' = [q EXCEPT !.todo = Tail(@)]
                   /\ IF Safe(m) THEN tmp' = {t \in tmp : t[1] # m.stem \o m.ext} \cup {<<m.stem \o m.ext, m.ord, m.c>>} /\ UNCHANGED out ELSE UNCHANGED <<tmp, out>>
           /\ UNCHANGED <<fs, cache, ans, hist, ops, stamp>>
Read == /\ q.ph = "read"
        /\ q' = [q EXCEPT !.ph = "clean", !.got = LET s == SortSeq(SetToSeq(tmp), LAMBDA x, y : x[2] < y[2]) IN
                     IF q.fn = "ses" /\ s = << >> THEN <<-1>> ELSE [i \in DOMAIN s |-> s[i][3]]]
        /\ UNCHANGED <<fs, cache, tmp, out, ans, hist, ops, stamp>>
Clean == /\ q.ph = "clean"
         /\ tmp' = {} /\ ans' = [p |-> q.p, fn |-> q.fn, got |-> q.got, b |-> fs[q.p].b] /\ q' = Idle
         /\ UNCHANGED <<fs, cache, out, hist, ops, stamp>>
----------------------------------------------------------------------------
(* Behaviours for the code. *)
Maybe(n, s) == IF Rare(n) THEN s ELSE << >>
NotOften(n, s) == IF Rare(n) THEN << >> ELSE s
Pre(z_) == IF Rare(9) THEN RandomElement({"../", "ABS/", "../../", "sub/../../"}) ELSE IF Rare(6) THEN RandomElement({"./", "sub/"}) ELSE ""
Kind(z_) == IF Rare(12) THEN RandomElement({"sym", "hard", "symin"}) ELSE "file"
Stem(p) == RandomElement({p, "AB_0002", "LT001_0001"})
X(pre, stem, ext, c) == [pre |-> pre, stem |-> stem, ext |-> ext, kind |-> Kind(0), ord |-> 0, c |-> c]
ObsM(p, i) == [X(IF Rare(3) THEN Pre(0) ELSE "", p \o "_000" \o ToString(i), ".obs",
                 [t |-> "obs", oid |-> RandomElement(1..4), steps |-> IF Rare(3) THEN << >> ELSE [k \in 1..RandomElement(1..4) |-> RandomElement({1, 2, 3})],
                  bad |-> IF Rare(25) THEN RandomElement({"short", "step", "end", "many", "mode"}) ELSE ""]) EXCEPT !.ord = i]
Cmd(z_) == [sid |-> IF Rare(30) THEN RandomElement({13, 19}) ELSE RandomElement((1..20) \ {13, 19}), cid |-> RandomElement(0..45), asap |-> RandomElement({0, 1, 7}), len |-> RandomElement({0, 0, 1, 7, 255, 256})]
Line(z_) == [id |-> RandomElement(1..4), tag |-> RandomElement({"055616_000440674", "1_2"}), barcode |-> RandomElement({"Err", "S15TCV13S0016", "S10"}), outcome |-> RandomElement(0..9),
         msg |-> RandomElement({"", "UNK", "all is well", "it did not (1): x"}), form |-> RandomElement({"new", "new", "five", "four"})]
OkLine(x) == (x.form = "new" \/ (x.barcode # "Err" /\ x.msg # ""))
Lines(z_) == SelectSeq(TLCEval([i \in 1..RandomElement(1..4) |-> Line(0)]), OkLine)
Entry(z_) == LET k == RandomElement(1..10) IN
    [idx |-> CASE k <= 3 -> <<3, RandomElement({1, 2, 33, 256, 257})>> [] k <= 8 -> <<4, RandomElement(1..4), RandomElement({1, 2, 33, 256, 257})>> [] k = 9 -> << >> [] OTHER -> <<1, 4>>,
     typ |-> RandomElement({"a3", "a1", "i1u", "i2u", "i4u", "i4s", "i8u", "f4", "f8", "f4r", "f8r"}), v |-> RandomElement({0, 1, 2, 3, 7, 15, 31, 200, 255}), branch |-> Rare(12)]
Distinct(s) == SelectSeq([i \in DOMAIN s |-> IF \E j \in 1..(i - 1) : s[j].idx = s[i].idx THEN [s[i] EXCEPT !.v = -1] ELSE s[i]], LAMBDA e : e.v # -1)
OkEntry(e) == /\ (e.typ \in {"a3", "a1"} => (e.typ = "a1" => e.v < 10))
Entries(z_) == SelectSeq(Distinct(TLCEval([i \in 1..RandomElement({1, 4, 12}) |-> Entry(0)])), OkEntry)
Shuffle(s) == LET p == RandomElement(Permutations(DOMAIN s)) IN [i \in DOMAIN s |-> s[p[i]]]
Swap2(s) == IF Len(s) < 2 THEN s ELSE LET i == RandomElement(DOMAIN s) j == RandomElement(DOMAIN s) IN [s EXCEPT ![i] = s[j], ![j] = s[i]]
Noise(z_) == Maybe(3, <<[X("", "notes", ".ipl", [t |-> "junk"]) EXCEPT !.kind = "file"]>>) \o Maybe(4, <<[X("", "dynamic", "", [t |-> "junk"]) EXCEPT !.kind = "dir"]>>)
Uniq(s) == SelectSeq([i \in DOMAIN s |-> [s[i] EXCEPT !.c = [@ EXCEPT !.t = IF \E j \in 1..(i - 1) : s[j].stem = s[i].stem /\ s[j].ext = s[i].ext THEN "" ELSE @]]], LAMBDA m : m.c.t # "")
Say(k, v) == [k |-> k, i |-> << >>, v |-> v]
Cell(k, i, v) == [k |-> k, i |-> i, v |-> v]
Tab(z_) == LET n == RandomElement(2..4) IN St!Tables(
    <<Say("STATION_ID", RandomElement({"VL", "NA", "SV"})), Say("GEO_N", 34000), Say("GEO_E", -107000), Say("GEO_EL", 2000000), Say("N_STD", n), Say("N_FEE", n), Say("N_RPD", 2*n), Say("N_ARB", 1), Say("N_ARBCH", 2*n), Say("N_SNAP", 2), Say("N_SNAPCH", n),
      Cell("ARB_ID", <<1>>, "343"), Cell("SNAP_ANT", <<1, 1>>, 2), Cell("SNAP_ANT", <<1, 2>>, 1), Cell("ANT_STAT", <<3>>, 1), Cell("STD_LX", <<2>>, 1000*RandomElement(1..9))>>)
NewBundle(p) ==
    LET b == NotOften(8, <<X(Pre(0), Stem(p), ".ses", [t |-> "ses"])>>) \o Maybe(6, <<X(Pre(0), Stem(p), ".ses", [t |-> "ses"])>>)
             \o NotOften(8, <<X(Pre(0), Stem(p), ".cs", [t |-> "cs", cmds |-> [k \in 1..RandomElement(0..4) |-> Cmd(0)], stop |-> RandomElement({"eof", "zero", "more"})])>>)
             \o Maybe(9, <<X(Pre(0), "z", ".cs", [t |-> "cs", cmds |-> <<Cmd(0)>>, stop |-> "eof"])>>)
             \o [i \in 1..RandomElement(0..3) |-> ObsM(p, i)]
             \o NotOften(4, <<X(Pre(0), Stem(p), "_metadata.txt", [t |-> "meta", lines |-> Lines(0)])>>)
             \o Maybe(8, <<X(Pre(0), Stem(p), "_metadata.txt", [t |-> "meta", lines |-> Lines(0)])>>)
             \o NotOften(3, <<X(Pre(0), Stem(p), ".txt", [t |-> "sdf", pid |-> RandomElement({"LT001", "XY002"}), sid |-> RandomElement(1..99)])>>)
             \o Maybe(2, <<X("", "dynamic/sdm", ".dat", [t |-> "sdm"])>>)
             \o Maybe(2, <<X("", "mindelay", ".txt", [t |-> "mindelay", v |-> RandomElement({-1, 0, 54, 512, 4095})])>>)
             \o Maybe(2, <<X("", "mcs", ".host", [t |-> "host", v |-> RandomElement({"lwa1", "lwana", "lwasv-mcs", "nowhere"}), pad |-> RandomElement(0..3)])>>)
             \o Maybe(4, <<X(Pre(0), Stem(p), RandomElement({"_ASP_begin.gdb", "_ASP_begin.pag", "_ASP_end.pag"}), [t |-> "mib", entries |-> Entries(0)])>>)
             \o Maybe(5, <<X(Pre(0), Stem(p), "_ASP_end.gdb", [t |-> "mib", entries |-> Entries(0)])>>)
             \o Maybe(4, <<X("", "ssmif", ".dat", [t |-> "ssmif", tab |-> Tab(0)])>>) \o Noise(0) IN
    TLCEval(Swap2(Swap2(Swap2(Uniq(TLCEval(b))))))
Do(ev) == hist' = Append(hist, ev) /\ ops' = ops + 1 /\ UNCHANGED <<cache, q, tmp, out, ans>>
Where == {<<d, p>> : d \in {"d1", "d2"}, p \in Paths}
Put == /\ ops < MaxOps /\ \E p \in One(Paths), d \in One({"d1", "d1", "d2"}), z \in One({"gz", "gz", "tar", "bz2"}), how \in One({"write", "replace"}), trap \in One(1..12) :
         LET b == NewBundle(p) IN
         /\ Do([op |-> "put", d |-> d, p |-> p, z |-> z, how |-> how, b |-> b, trap |-> trap = 1])
         /\ fs' = [fs EXCEPT ![p] = [id |-> 1, b |-> << >>]] /\ stamp' = stamp + 1
Fns == {"ses", "obs", "cs", "meta", "sdf", "sdm", "mindelay", "host", "begin", "end", "mode", "valid", "station"}
Placed == {<<hist[i].d, hist[i].p>> : i \in {j \in DOMAIN hist : hist[j].op = "put"}}
Inquire == /\ ops > 0 /\ Placed # {} /\ \E fn \in (IF Rare(5) THEN {"obs"} ELSE One(Fns)), at \in One(IF Rare(12) THEN Where ELSE Placed), rel \in One({TRUE, FALSE}), arg \in One(IF Rare(2) THEN {<< >>} ELSE {<<0>>, <<1>>, <<2, 3>>, <<4, 1, 2, 3>>}), twice \in One({TRUE, FALSE}) :
              /\ Do([op |-> "ask", fn |-> fn, d |-> at[1], p |-> at[2], rel |-> rel, arg |-> IF fn = "obs" THEN arg ELSE << >>, sdm |-> twice]) /\ UNCHANGED <<fs, stamp>>
Types == {"char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong", "float", "double"}
Shape(z_) == RandomElement({<<1>>, <<1>>, <<2>>, <<3>>, <<7>>, <<2, 3>>, <<3, 2>>, <<2, 1, 3>>, <<2, 2, 2, 2>>})
Struct == /\ Rare(3) /\ \E n \in One(1..7), en \in One({"little", "big", "network"}), cm \in One({"str", "int"}) :
              /\ Do([op |-> "struct", en |-> en, cm |-> cm, f |-> [i \in 1..n |-> <<RandomElement(Types), Shape(0)>>], form |-> RandomElement(1..3)]) /\ UNCHANGED <<fs, stamp>>
MibOp == /\ Rare(3) /\ Do([op |-> "mib", entries |-> Entries(0), init |-> Rare(2), ext |-> RandomElement({".pag", ".gdb"}), dir |-> Rare(2)]) /\ UNCHANGED <<fs, stamp>>
Next == \/ (~Emit /\ ops < MaxOps /\ (PutSmall \/ Ask)) \/ (~Emit /\ (Open \/ Extract \/ Read \/ Clean))
        \/ (Emit /\ ops < MaxOps /\ (Put \/ Inquire \/ Inquire \/ Inquire \/ Struct \/ MibOp))
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* The answer is that of the bundle that is there, and the member that the names say. *)
Fresh == ans # << >> /\ q = Idle =>
    IF ans.fn = "obs" THEN ans.got = LET s == Observations(ans.b) IN
            [i \in DOMAIN SelectSeq(s, LAMBDA m : ~\E n \in ToSet(s) : n.stem = m.stem /\ n.ord > m.ord) |-> SelectSeq(s, LAMBDA m : ~\E n \in ToSet(s) : n.stem = m.stem /\ n.ord > m.ord)[i].c]
    ELSE LET c == Candidates(ans.b, "ses", ans.p) IN ans.got = <<IF c = << >> THEN -1 ELSE IF Safe(c[1]) THEN c[1].c ELSE -1>>
Contained == out = {} /\ \A t \in tmp : \E p \in Paths : \E i \in DOMAIN fs[p].b : fs[p].b[i].c = t[3] /\ Safe(fs[p].b[i])
Cleaned == q = Idle => tmp = {}
(* A structure has no overlapping fields, each at a multiple of its size. *)
Sound(S) == LET o == Offsets(S) IN
    /\ \A i \in DOMAIN S : o[i] % TSize(S[i][2]) = 0 /\ (i > 1 => o[i] >= o[i - 1] + TSize(S[i - 1][2])*S[i - 1][3]) /\ (i > 1 => o[i] < o[i - 1] + TSize(S[i - 1][2])*S[i - 1][3] + 8)
    /\ Size(S) >= o[Len(S)] + TSize(S[Len(S)][2])*S[Len(S)][3]
ASSUME \A S \in {SSF, OSF, OSFS, BEAM, OSF2, CMD, STAT, PARTS, ANTS, SETS} : Sound(S)
ASSUME Emit \/ \A a, b, c \in {"char", "short", "int", "long"} : \A n \in 1..3 : Sound(<<<<"x", a, n>>, <<"y", b, 1>>, <<"z", c, n>>>>)
EmitDone == ops = MaxOps => CSVWrite("%1$s", <<ToJson([ops |-> hist, lay |-> Layouts, ssmif |-> St!Layout])>>, IOEnv.GEN_OUT)
=============================================================================
